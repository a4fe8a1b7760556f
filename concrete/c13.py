from common import *
from refmodel import *
RULE = 'random slot permutations, pins and random choices, with and without energy; every mutation is checked; non-trivial: at least one pin'
def nontrivial (c): return bool (c['pins'])
BTN = ['Cl1', 'Cl2', 'Cl3', 'Dl1', 'Dl2', 'Dr3', 'Dr4', 'El3', 'Er3', 'Bl4']
def fixed ():
    base = [[i, b] for i in range (4) for b in BTN]
    yield dict (slots=base, perm=list (range (len (base))), pins=[], seed=1, steps=40)
    yield dict (slots=base, perm=list (range (len (base))), pins=[[0, None], [1, None], [2, None]], seed=2, steps=80)
    yield dict (slots=base, perm=list (range (len (base))), pins=[[0, 'Cl1'], [1, 'Dl1'], [3, None]], seed=3, steps=80)
    two = [[0, 'Dl1'], [1, 'Dl1'], [0, 'Dl2'], [1, 'Dl2']]
    yield dict (slots=two, perm=[0, 1, 2, 3], pins=[[0, None]], seed=4, steps=30)
    yield dict (slots=two, perm=[2, 1, 0, 3], pins=[[0, 'Dl1'], [0, 'Dl2']], seed=5, steps=30)
def gen (rng, i):
    nl = rng.randint (1, 4)
    btns = rng.sample (BTN, rng.randint (2, len (BTN)))
    slots = [[l, b] for l in range (nl) for b in btns]
    pinL = [l for l in range (nl) if rng.random () < .35]
    # initial permutation keeps pinned layers
    perm = list (range (len (slots)))
    free = [k for k, (l, b) in enumerate (slots) if l not in pinL]
    groups = [free] + [[k for k, (l, b) in enumerate (slots) if l == p] for p in pinL]
    for g in groups:
        s = list (g); rng.shuffle (s)
        if rng.random () < .7:
            for x, y in zip (g, s): perm[x] = y
    pins = [[l, None] for l in pinL] + [s for s in slots if rng.random () < rng.choice ([0, .1, .5])]
    return dict (slots=slots, perm=perm, pins=pins, seed=rng.randrange (2**31), steps=25)
def check (c):
    from lulua.optimize import LayoutOptimizer
    from lulua.carpalx import models
    from lulua.writer import Writer
    lay = layout ('ar-lulua')
    bm = buttonMap (kb ())
    slots = [(l, bm[b]) for l, b in c['slots']]
    m = dict ((slots[i], slots[j]) for i, j in enumerate (c['perm']))
    pins = frozenset ((l, bm[b] if b is not None else None) for l, b in c['pins'])
    nm = lambda s: (s[0], s[1].name)
    pinSlot = [s for s in slots if s in pins]
    pinLayer = {l for l, b in pins if b is None}
    # is there any admissible swap?
    def ok (m, a, b):
        return a != b and a not in pins and b not in pins and (a[0] not in pinLayer or m[b][0] == a[0]) and (b[0] not in pinLayer or m[a][0] == b[0])
    opt = LayoutOptimizer (dict (m), [], lay, pins, Writer (lay), model=models['mod01'])
    rng = random.Random (c['seed'])
    triads = [((comb ([], 'Dl1'), comb ([], 'Dl2'), comb ([], 'Dr3')), 3)]
    if all ((0, bm[x]) in m for x in ('Dl1', 'Dl2', 'Dr3')):
        opt = LayoutOptimizer (dict (m), triads, lay, pins, Writer (lay), model=models['mod01'])
    random.seed (c['seed'])
    start = dict (m)
    for step in range (c['steps']):
        cur = dict (opt.state.buttonMap)
        if not any (ok (cur, a, b) for a in slots for b in slots):
            break
        opt.mutate (withEnergy=rng.random () < .5)
        new = dict (opt.state.buttonMap)
        eq (set (map (nm, new)), set (map (nm, slots)), 'slots after mutation')
        eq (sorted (map (nm, new.values ())), sorted (map (nm, start.values ())), 'assignments after mutation')
        ch = [s for s in slots if new[s] != cur[s]]
        eq (len (ch), 2, f'number of changed slots in step {step}')
        expect (new[ch[0]] == cur[ch[1]] and new[ch[1]] == cur[ch[0]], 'not a swap', ch)
        for s in pinSlot:
            eq (nm (new[s]), nm (start[s]), f'assignment of pinned slot {nm (s)}')
        for s in slots:
            if s[0] in pinLayer:
                eq (new[s][0], s[0], f'layer of the key at {nm (s)} (layer is pinned)')
