from common import *
from refmodel import *
import queue
RULE = 'worker fed with random items (0..3 texts each, Arabic text with mapped characters and DOS line endings), failures injected at random items; result compared with the reference pipeline; non-trivial: at least 2 texts'
CHARMAP = {'\ufefb': '\u0644\u0627', '\u0623': '\u0627\u0654', '\u0625': '\u0627\u0655', '\u0626': '\u064a\u0654', '\u0624': '\u0648\u0654', ',': '\u060c', '\u0622': '\u0627\u0653', '%': '\u066a',
  '?': '\u061f', ';': '\u061b', '\ufef9': '\u0644\u0627\u0655', '\ufef7': '\u0644\u0627\u0654', '\u00a0': ' ', **{str (d): chr (0x660+d) for d in range (10)}}
def nontrivial (c): return sum (len (x) for x in c['items']) > 1
def fixed ():
    yield dict (items=[], fail=None); yield dict (items=[[]], fail=None); yield dict (items=[['']], fail=None)
    yield dict (items=[['\u0623\u0628 1,2%?;\u00a0\r\n\ufefb\n\r x']], fail=None)
    yield dict (items=[[''.join (CHARMAP)], ['\u0627\u0644 '] , []], fail=None)
    yield dict (items=[['\ufeff\u0628\u0627 \ufeff'], ['\u200f \u0628\u0627 \r']], fail=None)
    yield dict (items=[['ab'], ['\u0628\u0627 ']], fail=1); yield dict (items=[['\u0628\u0627 ']], fail=0)
    yield dict (items=[['\u0628\u0627'], ['\u0628\u0627 '], ['\u0628', '\u0627', ' ']], fail=None)
    yield dict (items=[['\u0628\u0627 \u062a\u062b \u0645\u0646 '*30]], fail=None, layout='ar-osx')
def gen (rng, i):
    al = '\u0627\u0628\u062a\u0644\u064e\u0651 \n' * 3 + ''.join (CHARMAP) + 'xyz\r\n.\ufeff\u200f'
    def t (): return ''.join (rng.choice (al) if rng.random () < .95 else '\r\n' for _ in range (rng.choice ([0, 1, 3, 10, 40])))
    items = [[t () for _ in range (rng.choice ([0, 1, 1, 2, 3]))] for _ in range (rng.choice ([0, 1, 2, 4]))]
    return dict (items=items, fail=rng.randrange (len (items)) if items and rng.random () < .2 else None, layout=rng.choice (['ar-lulua', 'ar-lulua'] + LAYOUTS))
class Line (str):
    """ an item, also an empty (false) one """
    def __getitem__ (self, i): return self.texts if i == 1 else str.__getitem__ (self, i)
def line (i, x):
    l = Line ('' if i % 2 else 'item')
    l.texts = x
    return l
def check (c):
    from lulua.text import writeWorker
    lay = layout (c.get ('layout', 'ar-lulua'))
    spec = specOf (lay)
    err = RuntimeError ('injected')
    n = [0]
    def f (item):
        i = n[0]; n[0] += 1
        for j, t in enumerate (item[1]):
            if c['fail'] == i and j == len (item[1])-1: raise err
            yield t
        if c['fail'] == i: raise err
    inq, outq, statusq = queue.Queue (), queue.Queue (), queue.Queue ()
    for i, x in enumerate (c['items']): inq.put (line (i + len (c['items']), x))
    inq.put (None)
    inq.put (('item', ['never read']))
    writeWorker (lay, [f], inq, outq, statusq, False)
    eq (outq.qsize (), 1, 'number of results')
    r = outq.get ()
    if c['fail'] is not None:
        expect (r is err or (isinstance (r, Exception) and r.args == err.args), f'result is {r!r}, expected the exception')
        return
    eq (inq.qsize (), 1, 'items left after the end marker')
    texts = [t for x in c['items'] for t in x]
    if not texts:
        expect (r is None, f'result without any text is {r!r}')
        return
    expect (isinstance (r, dict), f'result is {r!r}')
    eq (sorted (r), ['runlen', 'simple', 'triads', 'words'], 'kinds of statistics')
    B, C, U, T, H, F, W = {}, {}, {}, {}, {}, {}, {}
    def addto (a, b):
        for k, v in b.items (): a[k] = a.get (k, 0) + v
    for t in texts:
        t = ''.join (CHARMAP.get (ch, ch) for ch in t).replace ('\r\n', '\n')
        res = refType (spec, t)
        ev = [e for m, e in res]
        b, cc, u = refSimple (ev)
        addto (B, b); addto (C, cc); addto (U, u); addto (T, refTriads (ev))
        h, f_ = refRuns (ev)
        for k, v in h.items (): addto (H.setdefault (k, {}), v)
        for k, v in f_.items (): addto (F.setdefault (k, {}), v)
        addto (W, refWords ([m for m, e in res]))
    eq (obsSimple (r['simple']), (B, C, U), 'simple statistics'); eq (obsTriads (r['triads']), T, 'triads'); eq (obsRuns (r['runlen']), [H, F], 'runs'); eq (obsWords (r['words']), W, 'words')
    tot = 0
    while not statusq.empty (): tot += statusq.get ()
    eq (tot, len (texts), 'reported progress')
