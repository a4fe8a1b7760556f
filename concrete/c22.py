from common import *
RULE = 'random texts and maps, filter chains with 0..5 filters producing 0..3 results each, streams around the read batch size, limits; non-trivial: non-empty input'
def nontrivial (c): return True
def fixed ():
    yield dict (k='map', text='', m={}); yield dict (k='map', text='aab', m={'a': 'xy', 'b': ''}); yield dict (k='map', text='ab', m={'ab': 'q', 'a': 'b', 'b': 'a'})
    from_ = ['\u0623', ',', '0', '?', '\u00a0', 'x', '\ufefb']
    yield dict (k='map', text=''.join (from_)*2, m={'0': '٠', ',': '،'})
    for n in (0, 1, 2**20-1, 2**20, 2**20+1, 2**21+5):
        yield dict (k='iter', n=n, short=False); yield dict (k='iter', n=n, short=True)
    yield dict (k='apply', items=['a'], fs=[]); yield dict (k='apply', items=[], fs=[[['x'], 1]])
    for v in ('None', 'False', '0'): yield dict (k='items', v=v)
    yield dict (k='limit', n=3, limit=0); yield dict (k='limit', n=3, limit=3); yield dict (k='limit', n=3, limit=5); yield dict (k='limit', n=0, limit=1)
def gen (rng, i):
    r = i % 3
    if r == 0:
        al = 'abcا\n\u0651 '
        return dict (k='map', text=''.join (rng.choice (al) for _ in range (rng.choice ([0, 1, 5, 30]))), m=dict ((rng.choice (al), ''.join (rng.choice (al) for _ in range (rng.randint (0, 3)))) for _ in range (rng.randint (0, 5))))
    if r == 1:
        return dict (k='apply', items=[f'i{j}' for j in range (rng.choice ([0, 1, 2, 5]))], fs=[[[f's{j}_{q}' for q in range (rng.randint (0, 3))], rng.randint (1, 3)] for j in range (rng.randint (0, 5))], gen=rng.random () < .5)
    return dict (k='limit', n=rng.randint (0, 8), limit=rng.randint (0, 9))
def check (c):
    from lulua.text import mapChars, apply, iterchar
    from lulua.util import limit
    if c['k'] == 'map':
        m0 = dict (c['m'])
        out = ''
        for ch in c['text']: out += m0[ch] if ch in m0 else ch
        m = dict (m0)
        eq (mapChars (c['text'], m), out, 'mapped text'); eq (m, m0, 'map')
    elif c['k'] == 'iter':
        base = 'aا\nb\r\n\U0001f600'
        text = (base * (c['n']//len (base) + 1))[:c['n']]
        class F (io.StringIO):
            def read (self, n=-1): return super ().read (min (n, 7777) if c['short'] and n and n > 0 else n)
        got = ''.join (iterchar (F (text, newline='')))
        expect (got == text, f'characters of a stream of {c["n"]} characters: {len (got)} characters read')
        for x in iterchar (io.StringIO (text[:5], newline='')): expect (len (x) == 1, 'more than one character at once', x)
    elif c['k'] == 'items':
        # items may be anything
        v = dict ([('None', None), ('False', False), ('0', 0)])[c['v']]
        same = lambda a, b: len (a) == len (b) and all (x is y for x, y in zip (a, b))
        for xs in ([v], ['a', v, 'b'], [v, v, 'b'], ['a', v]):
            for n in range (5): expect (same (list (limit (iter (xs), n)), xs[:n]), f'the first {n} of {xs}')
            expect (same (list (apply ([], xs)), xs), f'{xs} without filters')
            expect (same (list (apply ([lambda x: [x, v]], xs)), [y for x in xs for y in (x, v)]), f'{xs} with a filter')
            expect (same (list (apply ([lambda x: [x, v], lambda x: [v, x]], xs)), [z for x in xs for y in (x, v) for z in (v, y)]), f'{xs} with two filters')
    elif c['k'] == 'apply':
        def mk (f):
            sfx, k = f
            def g (x): return [f'{x}.{s}' for s in sfx if (len (x) + len (s)) % k == 0 or k == 1]
            def h (x): yield from g (x)
            return h if c.get ('gen') else g
        fs = [mk (f) for f in c['fs']]
        want = list (c['items'])
        for f in fs: want = [y for x in want for y in f (x)]
        f0 = list (fs)
        eq (list (apply (fs, list (c['items']))), want, 'filtered items'); expect (fs == f0, 'filter list was modified')
        eq (list (apply (fs, iter (c['items']))), want, 'filtered items of an iterator')
    else:
        drawn = [0]
        def src ():
            for j in range (c['n']):
                drawn[0] += 1
                yield j
        eq (list (limit (src (), c['limit'])), list (range (min (c['n'], c['limit']))), 'limited items')
        expect (drawn[0] <= c['limit'], f'{drawn[0]} items drawn, limit {c["limit"]}')
        eq (list (limit (list (range (c['n'])), c['limit'])), list (range (min (c['n'], c['limit']))), 'limited list')
