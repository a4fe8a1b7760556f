from common import *
from refmodel import *
RULE = 'random triad lists (repeated slots, both swapped slots) on layouts and mutated step by step; the energy is compared with the reference formula after every step; non-trivial: at least 3 triads'
def nontrivial (c): return len (c['triads']) > 2
def fixed ():
    yield dict (triads=[], btns=['Dl1', 'Dl2'], seed=1, steps=5)
    yield dict (triads=[[[[0, 'Dl1'], [0, 'Dl1'], [0, 'Dl1']], 5]], btns=['Dl1', 'Dl2'], seed=1, steps=8)
    yield dict (triads=[[[[0, 'Dl1'], [0, 'Dl2'], [0, 'Dl1']], 5], [[[1, 'Dl1'], [0, 'Dl2'], [2, 'Dl1']], 7]], btns=['Dl1', 'Dl2'], seed=2, steps=12)
def gen (rng, i):
    btns = rng.sample (['Cl1', 'Cl2', 'Cl3', 'Dl1', 'Dl2', 'Dr3', 'Dr4', 'El3', 'Er3', 'Bl4'], rng.choice ([2, 3, 10]))
    nl = rng.randint (1, 4)
    w = rng.choice ([[1, 2, 3], [1, 1000], [0.5, 2.25], [10**6, 3], [0, 1, 2]])
    s = lambda: [rng.randrange (nl), rng.choice (btns)]
    t = [[[s (), s (), s ()], rng.choice (w)] for _ in range (rng.choice ([1, 2, 4, 10, 30]))]
    if not any (x[1] for x in t): t[0][1] = 1
    return dict (triads=t, btns=btns, seed=rng.randrange (2**31), steps=15, randomize=rng.choice ([0, 0, 3, 10]), restart=rng.random () < .2)
MODS = [frozenset (), frozenset (['El_shift']), frozenset (['Dl_caps']), frozenset (['El1'])]
def check (c):
    from lulua.optimize import LayoutOptimizer
    from lulua.carpalx import models
    from lulua.writer import Writer
    lay = layout ('ar-lulua')
    bm = buttonMap (kb ())
    # first modifier of each layer, as defined by the layout
    mods = [frozenset (b.name for b in l.modifier[0]) for l in lay.layers]
    slots = [(i, bm[b]) for i in range (4) for b in c['btns']]
    tr = []
    seen = set ()
    for t, w in c['triads']:
        rng0 = random.Random (repr (t))
        # any modifier alternative of the layer
        cb = tuple (comb (sorted (b.name for b in rng0.choice (lay.layers[i].modifier)), b) for i, b in t)
        if cb in seen: continue
        seen.add (cb)
        tr.append ((cb, w, t))
    opt = LayoutOptimizer (dict (zip (slots, slots)), [(a, b) for a, b, t in tr], lay, frozenset (), Writer (lay), model=models['mod01'])
    memo = {}
    def ref ():
        bmap = opt.state.buttonMap
        tot = n = 0
        for a, w, t in tr:
            mapped = tuple ((mods[x[0]], x[1].name) for x in (bmap[(i, bm[b])] for i, b in t))
            if mapped not in memo:
                memo[mapped] = refEffortNames ('mod01', mapped)
            tot += w*memo[mapped]; n += w
        return tot/n if n else 0
    random.seed (c['seed'])
    for _ in range (c.get ('randomize', 0)):
        opt.mutate (withEnergy=False)
    opt.run (steps=0)
    def cmp (what):
        g, w = opt.energy (), ref ()
        expect (close (g, w, 1e-6), f'energy {what} is {g}, from scratch {w}')
    cmp ('initially')
    for s in range (c['steps']):
        before = opt.energy ()
        d = opt.mutate ()
        cmp (f'after step {s}')
        expect (close (d, opt.energy () - before, 1e-6), f'returned change {d}, energy changed by {opt.energy () - before}')
    if c.get ('restart'):
        best, rel = opt.run (steps=10)
        cmp ('after annealing')
