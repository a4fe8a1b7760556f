from common import *
from refmodel import *
RULE = 'random triads of combinations with 1..5 keys on the standard keyboard under both shipped models and random models, fresh, repeated, after other triads and in copies; non-trivial: always'
NAMES = sorted (MODELS['mod01']['baselineEffort'])
def fixed ():
    yield dict (model='mod01', triads=[[[[], 'Dl1']]*3, [[[], 'Dl1'], [[], 'Dl2'], [[], 'Dl3']]])
    for n in NAMES:
        yield dict (model='mod01', triads=[[[[], n]]*3]); yield dict (model='salvo', triads=[[[[], n]]*3])
        yield dict (model='mod01', triads=[[[[n], 'Dl1'], [[], 'Dr1'], [['El_shift'], n]]])
    # zero effort triads
    yield dict (model=dict (kBPS=[0, 0, 0], k123S=[1, 1, 1, 1], w0HRF=[0, 0, 0, 0], fHRF=[0, 0, 0], pHand=[0, 0], pRow=[0]*5, pFinger=[[0]*5, [0]*5], base=[0]*len (NAMES)), triads=[[[[], 'Dl1']]*3])
def gen (rng, i):
    r = rng.random ()
    if r < .6:
        model = rng.choice (['mod01', 'salvo'])
    else:
        f = lambda: round (rng.uniform (-2, 5), 3)
        model = dict (kBPS=[f () for _ in range (3)], k123S=[f () for _ in range (4)], w0HRF=[f () for _ in range (4)], fHRF=[f () for _ in range (3)],
            pHand=[f (), f ()], pRow=[f () for _ in range (5)], pFinger=[[f () for _ in range (5)] for _ in range (2)], base=[f () for _ in NAMES])
    pool = NAMES if rng.random () < .6 else rng.sample (NAMES, 3)
    def c ():
        return [rng.sample (pool, min (len (pool), rng.choice ([0, 0, 0, 1, 1, 2, 4]))), rng.choice (pool)]
    return dict (model=model, triads=[[c (), c (), c ()] for _ in range (rng.randint (1, 4))])
def params (m):
    from lulua.carpalx import models, ModelParams
    from lulua.layout import Direction, FingerType
    if isinstance (m, str):
        return models[m], MODELS[m]
    ref = dict (kBPS=tuple (m['kBPS']), k123S=tuple (m['k123S']), w0HRF=tuple (m['w0HRF']), fHRF=tuple (m['fHRF']),
        pHand={1: m['pHand'][0], 2: m['pHand'][1]}, pRow=tuple (m['pRow']),
        pFinger={h: {f: m['pFinger'][h-1][f-1] for f in range (1, 6)} for h in (1, 2)}, baselineEffort=dict (zip (NAMES, m['base'])))
    return ModelParams (**ref), ref
def check (c):
    from lulua.carpalx import Carpalx
    from lulua.writer import Writer
    p, ref = params (c['model'])
    w = Writer (layout ('ar-lulua'))
    def want (t):
        t = [list (set (m)) + [b] for m, b in t]
        return refEffort (ref, t, lambda k: FINGERMAP[k], lambda k: ROWOF[k], lambda k: ref['baselineEffort'][k])
    def single (cx, t):
        cx.reset ()
        cx.addTriad (tuple (comb (m, b) for m, b in t), 1)
        return cx.effort
    shared = Carpalx (p, w)
    other, _ = params ('salvo' if c['model'] != 'salvo' else 'mod01')
    for n, t in enumerate (c['triads']):
        wa = want (t)
        # an instance of another model evaluated the same triad before
        single (Carpalx (other, w), t)
        g = single (Carpalx (p, w), t)
        expect (close (g, wa), f'effort of {t} is {g}, formula gives {wa}')
        cp = shared.copy ()
        for what, cx in (('shared instance', shared), ('again', shared), ('copy', cp), ('copy of copy', cp.copy ())):
            g = single (cx, t)
            expect (close (g, wa), f'effort of {t} ({what}) is {g}, formula gives {wa}')
    for t in c['triads']:
        g = single (shared, t)
        expect (close (g, want (t)), f'effort of {t} after others is {g}, formula gives {want (t)}')
