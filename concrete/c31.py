from common import *; from refmodel import *
import argparse
from fractions import Fraction
RULE = 'random triad tables (several triads per text, distinct bin weights) and options; non-trivial: at least three triads'
def nontrivial (c): return len (c['tri']) > 2
def effortButtons (): return set (MODELS['mod01']['baselineEffort'])
def fixed ():
    yield dict (name='ar-osx', tri=[[[0, 1, 2], 5], [[0, 0, 1], 3], [[2, 1, 0], 2]], cutoff=.5, sort='weight', reverse=False, limit=0)
    yield dict (name='ar-lulua', tri=[[[0, 1, 2], 5], [[0, 0, 1], 3], [[2, 1, 0], 2]], cutoff=.8, sort='effort', reverse=True, limit=1)
    yield dict (name='ar-lulua', tri=[[[0, 1, 2], 1]], cutoff=1.0, sort='combined', reverse=True, limit=0)
    yield dict (name='ar-lulua', tri=[[[0, 1, 2], 5], [[0, 0, 1], 3]], cutoff=0.0, sort='combined', reverse=True, limit=0)
    yield dict (name='ar-lulua', tri=[[[i % 11, (3*i) % 17, (7*i) % 23], 100 + (i*37) % 61] for i in range (60)], cutoff=1.0, sort='combined', reverse=True, limit=0)
    yield dict (name='ar-lulua', tri=[], cutoff=0.5, sort='weight', reverse=True, limit=0)
def gen (rng, i):
    n = rng.choice ([1, 2, 3, 5, 10, 25])
    pool = rng.randint (2, 12)
    return dict (name=rng.choice (LAYOUTS), tri=[[[rng.randrange (pool) for _ in range (3)], rng.randint (1, 200) if rng.random () < .8 else rng.choice ([1, 2])] for _ in range (n)], dup=rng.randrange (9),
       cutoff=rng.choice ([0, .1, .25, .5, .75, .9, 1.0]), sort=rng.choice (['weight', 'effort', 'combined']), reverse=rng.random () < .5, limit=rng.choice ([0, 0, 1, 2, 5, 100]))
def check (c):
    from lulua import plot
    from lulua.stats import TriadStats
    from lulua.writer import Writer
    from lulua.util import displayText
    lay = layout (c['name'])
    spec = specOf (lay)
    w = Writer (lay)
    good = effortButtons ()
    pool = [(t, m, b) for t, l in typable (spec).items () for m, b in l if b in good and m <= good]
    rng = random.Random (c.get ('dup', 0))
    texts = [t for t, m, b in pool]
    multi = [x for x in pool if texts.count (x[0]) > 1]
    pool = multi[:4] + rng.sample (pool, min (9, len (pool)))
    tri = {}
    for idx, n in c['tri']:
        k = tuple (pool[j % len (pool)] for j in idx)
        tri[k] = tri.get (k, 0) + n
    bins = {}
    for k, n in tri.items ():
        b = bins.setdefault (tuple (t for t, m, x in k), [0, 0])
        b[0] += n
        b[1] += n * refEffortNames ('mod01', [(m, b) for t, m, b in k])
    ws = [b[0] for b in bins.values ()]
    if len (set (ws)) != len (ws): return
    st = TriadStats (w)
    for k, n in tri.items (): st.triads[tuple (comb (m, b) for t, m, b in k)] += n
    args = argparse.Namespace (layout=c['name'], keyboard='ibmpc105', cutoff=c['cutoff'], sort=c['sort'], reverse=c['reverse'], limit=c['limit'])
    with stdio (pickle.dumps (dict (triads=st))) as o: plot.triadfreq (args)
    total = sum (ws)
    top, acc = [], 0
    for t, (n, e) in sorted (bins.items (), key=lambda x: -x[1][0]):
        if acc >= total*c['cutoff']: break
        top.append ((t, n, e/n)); acc += n
    key = dict (weight=lambda x: x[1], effort=lambda x: x[2], combined=lambda x: x[1]/total*x[2]**2)[c['sort']]
    allKeys = sorted (key (x) for x in top)
    ambiguous = any (b-a < 1e-9*max (1, abs (b)) for a, b in zip (allKeys, allKeys[1:]))
    top.sort (key=key, reverse=c['reverse'])
    if c['limit'] > 0:
        if ambiguous: return
        top = top[:c['limit']]
    # texts may contain white space or line breaks, compare as a whole
    want = [(''.join (map (displayText, t)), n, e) for t, n, e in top]
    lines = o.out.decode ().split ('\n')
    eq (lines[-1], '', 'end of output')
    got = []
    for l in lines[:-1]:
        a, n, e = l.rsplit (' ', 2)
        got.append ((a, int (n), float (e)))
    if ambiguous: got.sort (); want.sort ()
    eq ([(a, n) for a, n, e in got], [(a, n) for a, n, e in want], 'listed triads')
    for (a, n, e), (a2, n2, e2) in zip (got, want): expect (abs (e-e2) < 1e-6*max (1, abs (e2)), 'effort of', a, e, e2)
