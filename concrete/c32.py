from common import *
import xml.dom.minidom
from xml.sax.saxutils import escape
RULE = 'random TEI.2 and subtitle documents; non-trivial: at least two sentences'
def nontrivial (c): return json.dumps (c).count ('"s"') > 1
def fixed ():
    yield dict (kind='tei', doc=[['text', [['body', [['p', [['s', ['a', ['w', ['x']], 'b']], 'junk', ['s', []]]], ['p', []], ['div', [['p', [['s', ['c']]]]]]]]]], ['other', [['s', ['no']]]]])
    yield dict (kind='tei', doc=[])
    yield dict (kind='sub', doc=[['s', [' a ', ['time', ['t']], 'b\n']], ['x', [['s', ['c']]]], ['s', []], 'junk'])
    yield dict (kind='sub', doc=[])
    yield dict (kind='tei', doc=[['text', [['front', [['p', [['s', ['no']]]]]], ['body', [['p', [['s', [' a\n']], ['q', [['s', ['nested']]]]]]]], ['body', [['p', [['s', ['two']]]]]]]], ['text', [['body', [['p', [['s', ['3']]]]]]]]])
def gen (rng, i):
    T = ['a', ' b ', 'ج\n', '\n  ', 'x&y<z', '\t', '1', '\u00a0c\u3000', '\u2003']
    def s (nest=True):
        return ['s', [rng.choice (T) if rng.random () < .6 else (['w', [rng.choice (T)]] if rng.random () < .7 or not nest else s (False)) for _ in range (rng.randint (0, 4))]]
    if i % 2:
        def el (d): return [x for _ in range (rng.randint (0, 4)) for x in [s () if rng.random () < .5 else rng.choice (T) if rng.random () < .5 or d == 0 else ['x', el (d-1)]]]
        return dict (kind='sub', doc=el (2))
    def p (): return ['p', [s () if rng.random () < .6 else (rng.choice (T) if rng.random () < .5 else ['q', [s ()]]) for _ in range (rng.randint (0, 4))]]
    def body (): return ['body', [p () if rng.random () < .7 else (['div', [p ()]] if rng.random () < .5 else rng.choice ([s (), 'txt'])) for _ in range (rng.randint (0, 4))]]
    return dict (kind='tei', doc=[['text', [body () if rng.random () < .7 else rng.choice ([p (), ['front', [p ()]], 'z']) for _ in range (rng.randint (0, 3))]] if rng.random () < .8 else rng.choice ([p (), body (), 'y']) for _ in range (rng.randint (0, 3))])
def ser (n):
    if isinstance (n, str): return escape (n)
    return f'<{n[0]}>' + ''.join (map (ser, n[1])) + f'</{n[0]}>'
def desc (n, name):
    for c in n[1]:
        if not isinstance (c, str):
            if c[0] == name: yield c
            yield from desc (c, name)
def direct (n): return ''.join (c for c in n[1] if isinstance (c, str))
def check (c):
    from lulua.text import filterTEI2, filterOpenSubtitles
    root = ['root', c['doc']]
    doc = xml.dom.minidom.parseString (ser (root).encode ('utf-8'))
    if c['kind'] == 'tei':
        out = []
        for t in desc (root, 'text'):
            for b in desc (t, 'body'):
                for p in desc (b, 'p'):
                    out += [direct (s) for s in desc (p, 's')] + ['']
        eq (list (filterTEI2 (doc)), ['\n'.join (out)], 'sentences')
    else:
        eq (list (filterOpenSubtitles (doc)), ['\n'.join (direct (s).strip () for s in desc (root, 's'))], 'sentences')
