from common import *
from refmodel import *
RULE = 'random lists of alternatives with 1..12 keys each and random previous combination, plus whole texts typed on layouts with many alternatives; non-trivial: at least two alternatives'
NAMES = [n for n in FINGERMAP if n != 'Fl_fn']
def nontrivial (c): return len (c.get ('combs', [1, 2])) > 1
def fixed ():
    for p in (None, [[], 'Dl1'], [[], 'Dr1'], [['El_shift'], 'Dr1'], [['Er_shift', 'Dl_caps'], 'Dl1']):
        yield dict (prev=p, combs=[[[], 'Fl_space'], [[], 'Fr_space']])
        yield dict (prev=p, combs=[[[], 'Fr_space'], [[], 'Fl_space']])
        yield dict (prev=p, combs=[[['El_shift'], 'Dl1'], [['Er_shift'], 'Dl1'], [[], 'Bl1']])
        yield dict (prev=p, combs=[[['El_shift'], 'Dr1'], [['Er_shift'], 'Dr1']])
        yield dict (prev=p, combs=[[NAMES[:20], 'Dl1'], [NAMES[20:41], 'Dl1']])
    for n in LAYOUTS:
        yield dict (layout=n, text=' '.join (typable (specOf (layout (n)))))
def gen (rng, i):
    if i % 10 == 9:
        spec = genLayout (rng, 'ab', rng.choice ([1, 2]), size=20)
        return dict (spec=spec, text=''.join (rng.choice ('abz') for _ in range (30)))
    big = rng.random () < .2
    pool = NAMES if rng.random () < .5 else rng.sample (NAMES, 6)
    def c ():
        n = rng.choice ([0, 0, 1, 1, 1, 2, 2, 3, 4, 5] + ([12, 20, 30] if big else []))
        return [rng.sample (pool, min (n, len (pool))), rng.choice (pool)]
    n = rng.choice ([1, 2, 2, 3, 4, 6, 10])
    if rng.random () < .5:
        k = rng.randint (0, 4)
        cs = [[rng.sample (pool, k), rng.choice (pool)] for _ in range (n)]
    else:
        cs = [c () for _ in range (n)]
    return dict (prev=None if rng.random () < .15 else c (), combs=cs)
def check (c):
    from lulua.writer import Writer
    if 'text' in c:
        lay = layout (c['layout']) if 'layout' in c else mkLayout (c['spec'])
        spec = c['spec'] if 'spec' in c else specOf (lay)
        got = []
        for m, e in Writer (lay).type (io.StringIO (c['text'], newline='')):
            got.append ((m, ('c',) + (combName (e)[0], min (combName (e)[1])) if m is not None else ('s', e.char)))
        want = refType (spec, c['text'])
        for g, w in zip (got, want):
            eq (g, w, 'typed combination')
        eq (len (got), len (want), 'number of events')
        return
    w = Writer (layout ('ar-lulua'))
    for n, (h, f) in FINGERMAP.items ():
        if n in buttonMap (kb ()):
            eq (tuple (int (x) for x in w.getHandFinger (buttonMap (kb ())[n])), (h, f), f'hand and finger of {n}')
    if c['prev'] is not None:
        w.press (comb (*c['prev']))
    cs = [comb (*x) for x in c['combs']]
    got = w.chooseCombination (cs)
    prev = None if c['prev'] is None else (frozenset (c['prev'][0]), c['prev'][1])
    want = refChoose ([(frozenset (m), b) for m, b in c['combs']], prev)
    eq (combName (got), (want[0], frozenset ([want[1]])), 'chosen combination')
