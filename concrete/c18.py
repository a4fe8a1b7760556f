from common import *
RULE = 'random keyboards with 0..8 rows and 0..6 buttons per half; non-trivial: at least two non-empty rows'
def nontrivial (c): return sum (1 for l, r in c['rows'] if l or r) > 1
def fixed ():
    yield dict (rows=[])
    yield dict (rows=[[[], []], [['a'], []], [[], ['b']]])
    yield dict (rows=[[l.split (), r.split ()] for l, r in ROWNAMES], std=True)
def gen (rng, i):
    n = iter (rng.sample (range (1000), 1000))
    return dict (rows=[[[f'b{next (n)}' for _ in range (rng.choice ([0, 1, 2, 6]))], [f'b{next (n)}' for _ in range (rng.choice ([0, 1, 3, 5]))]] for _ in range (rng.randint (0, 8))])
def check (c):
    from lulua.keyboard import PhysicalKeyboard, Button, LetterButton
    rows = c['rows']
    k = kb () if c.get ('std') else PhysicalKeyboard ('n', 'd', [[[Button (n) for n in l], [LetterButton (n) for n in r]] for l, r in rows])
    names = [n for l, r in rows for n in l + r]
    eq ([b.name for b in k.keys ()], names, 'keys'); eq ([b.name for b in k.keys ()], names, 'keys, second time')
    eq (len (k), len (names), 'length')
    eq ([[[b.name for b in h] for h in r] for r in k], rows, 'rows')
    objs = dict ((b.name, b) for l, r in k.rows for b in list (l) + list (r))
    for i, (l, r) in enumerate (rows):
        for n in l + r:
            expect (k[n] is objs[n], f'[{n!r}]'); expect (k.find (n) is objs[n], f'find ({n!r})')
            eq (k.getRow (objs[n]), i, f'row of {n}'); eq (k.getRow (Button (n)), i, f'row of an equal button {n}')
    for bad in ('nope', '', 'b', 'B1') + tuple (n + 'x' for n in names[:2]) + tuple (n[:-1] for n in names[:2]):
        if bad in names: continue
        for f in (k.find, k.__getitem__):
            try: f (bad)
            except KeyError: pass
            else: raise Fail (f'found a button for {bad!r}')
