from common import *; from refmodel import *; from evgen import *
RULE = 'random typed texts of all unicode categories on generated layouts with multi-character keys and skips; non-trivial: at least 2 items'
CH = 'اب\u0651\u064e أ٠٣،.\n-aZ5_\u0903\u200c\u0640ـﷺ日ʰ\u20dd'
def nontrivial (c): return len (c['items']) > 1
def fixed ():
    import itertools
    al = [['t', 'ا'], ['t', '\u064e'], ['t', ' '], ['s', 'x'], ['t', 'ب.ا']]
    for n in range (1, 5):
        for ev in itertools.product (al, repeat=n):
            yield dict (items=list (ev))
    yield dict (items=[x for ch in CH for x in (['t', 'ا'], ['t', ch])] + [['t', '.']])
    cats = {}
    for cp in range (0x110000):
        cats.setdefault (unicodedata.category (chr (cp)), []).append (chr (cp))
    for k in sorted (cats):
        if k != 'Cs':
            yield dict (items=[['t', 'ا'], ['s', cats[k][0]], ['t', 'ب'], ['t', '!'], ['t', 'ا'], ['s', cats[k][-1]], ['t', 'ب'], ['t', '!']])
            yield dict (items=[['t', 'ا'], ['t', cats[k][0]], ['t', 'ب'], ['t', cats[k][-1]], ['t', '!']])
def gen (rng, i):
    n = rng.choice ([0, 1, 2, 4, 8, 20, 50])
    out = []
    for _ in range (n):
        if rng.random () < .15:
            out.append (['s', rng.choice ('xا' if rng.random () < .5 else CH + '\u0301\u0302')])
        else:
            ch = CH if rng.random () < .4 else 'اب\u064e '
            out.append (['t', ''.join (rng.choice (ch) for _ in range (rng.choice ([1, 1, 1, 2, 3, 5])))])
    return dict (items=out)
def check (c):
    from lulua.stats import WordStats
    from lulua.writer import Writer
    texts = []
    for k, t in c['items']:
        if k == 't' and t not in texts:
            texts.append (t)
    names = [n for n in FINGERMAP if n != 'Fl_fn']
    spec = [[[[]], dict (zip (names, texts[:len (names)]))], [[['El_shift']], dict (zip (names, texts[len (names):]))]]
    lay = mkLayout (spec)
    where = {}
    for i, (m, l) in enumerate (spec):
        for b, t in l.items ():
            where[t] = ['c', m[0], b]
    s = run (WordStats, [where[t] if k == 't' else ['s', t] for k, t in c['items']], Writer (lay))
    eq (obsWords (s), refWords ([t if k == 't' else None for k, t in c['items']]), 'words')
    rejects (WordStats)
