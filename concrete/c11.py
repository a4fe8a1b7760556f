from common import *
from refmodel import *
from fractions import Fraction
RULE = 'random sequences of add, remove, add-table, reset and copy with integer and fractional weights on a family of instances; non-trivial: at least 3 operations'
NAMES = sorted (MODELS['mod01']['baselineEffort'])
def nontrivial (c): return len (c['ops']) > 2
T = [[[[], a], [[], b], [['El_shift'], d]] for a, b, d in zip (NAMES[::4], NAMES[1::4], NAMES[2::4])][:6]
def fixed ():
    yield dict (ops=[['add', 0, 0, 3], ['rm', 0, 0, 3]])
    yield dict (ops=[['add', 0, 0, 3], ['copy', 0], ['add', 0, 1, 4], ['rm', 1, 0, 3], ['reset', 0]])
    yield dict (ops=[['table', 0, [[0, 2], [1, 5], [2, 7]]], ['rm', 0, 1, 5]])
    yield dict (ops=[['add', 0, 0, 0.25], ['rm', 0, 1, 0.25]])
    yield dict (ops=[['rm', 0, 0, 5], ['add', 0, 1, 3]])
    yield dict (ops=[['add', 0, 0, 10**6], ['add', 0, 1, 1], ['copy', 0], ['reset', 0], ['add', 0, 2, 2]])
def gen (rng, i):
    ops, n = [], 1
    ws = rng.choice ([[1, 2, 3, 7], [0, 1, 5], [0.5, 0.25, 3], [10**5, 1]])
    for _ in range (rng.randint (1, 14)):
        r = rng.random ()
        k = rng.randrange (n)
        if r < .4: ops.append (['add', k, rng.randrange (len (T)), rng.choice (ws)])
        elif r < .65: ops.append (['rm', k, rng.randrange (len (T)), rng.choice (ws)])
        elif r < .8: ops.append (['table', k, [[j, rng.choice (ws)] for j in rng.sample (range (len (T)), rng.randint (0, 4))]])
        elif r < .87: ops.append (['reset', k])
        elif n < 4: ops.append (['copy', k]); n += 1
    return dict (ops=ops)
_e = None
def check (c):
    from lulua.carpalx import Carpalx, models
    from lulua.writer import Writer
    global _e
    tr = [tuple (comb (m, b) for m, b in t) for t in T]
    if _e is None:
        _e = [refEffortNames ('mod01', [(frozenset (m), b) for m, b in t]) for t in T]
    inst = [Carpalx (models['mod01'], Writer (layout ('ar-lulua')))]
    ref = [[Fraction (0), Fraction (0), 0]]
    def upd (k, j, w):
        ref[k][0] += Fraction (w)*Fraction (_e[j]); ref[k][1] += Fraction (w); ref[k][2] += abs (w)
    eq (inst[0].effort, 0, 'initial effort')
    for op in c['ops']:
        k = op[1]
        if op[0] == 'add': inst[k].addTriad (tr[op[2]], op[3]); upd (k, op[2], op[3])
        elif op[0] == 'rm': inst[k].removeTriad (tr[op[2]], op[3]); upd (k, op[2], -op[3])
        elif op[0] == 'table':
            inst[k].addTriads (dict ((tr[j], w) for j, w in op[2]))
            for j, w in op[2]: upd (k, j, w)
        elif op[0] == 'reset': inst[k].reset (); ref[k] = [Fraction (0), Fraction (0), 0]
        elif op[0] == 'copy': inst.append (inst[k].copy ()); ref.append (list (ref[k]))
        for i, (cx, (a, n, tot)) in enumerate (zip (inst, ref)):
            got = cx.effort
            if n == 0:
                eq (got, 0, f'effort of instance {i} without weight after {op}')
            else:
                want = float (a/n)
                expect (abs (got-want) <= 1e-9*(1+tot*10/abs (float (n))), f'effort of instance {i} after {op} is {got}, weighted mean is {want}')
