"""C09: stroke path classification.  Precondition: three buttons with arbitrary hand, finger and row.  Postcondition: the
effort of the triad under a model that isolates the stroke path is the digit representation of the published classes."""
from .api import *

def refHand (h): return z3.If (z3.And (h[0] == h[1], h[1] == h[2]), 2, z3.If (h[0] == h[2], 1, z3.IntVal (0)))
def refRow (r):
    a, b, c = r
    mx = lambda x, y: z3.If (x > y, x, y)
    down, up = mx (b-a, c-b), mx (a-b, b-c)
    zig = z3.And (down <= 1, up <= 1, a-c <= 1, c-a <= 1)
    I = z3.IntVal
    return z3.If (z3.And (a == b, b == c), I (0), z3.If (z3.Or (a == b, b == c), z3.If (c > a, I (1), I (2)),
        z3.If (z3.And (a < b, b < c), I (4), z3.If (z3.And (a > b, b > c), I (6), z3.If (zig, I (3), z3.If (down > 1, I (5), I (7)))))))
def refFinger (hs, fs, ids):
    n = [z3.If (h == 1, f, 11-f) for h, f in zip (hs, fs)]
    a, b, c = n
    rep = z3.Or (ids[0] == ids[1], ids[1] == ids[2], ids[0] == ids[2])
    I = z3.IntVal
    mono = z3.Or (z3.And (a <= b, b <= c), z3.And (a >= b, b >= c))
    diff = z3.And (a != b, b != c, a != c)
    return z3.If (z3.And (a == b, b == c), z3.If (rep, I (5), I (7)),
        z3.If (diff, z3.If (mono, I (0), z3.If (z3.Or (z3.And (a > c, c > b), z3.And (a < c, c < b)), I (2), I (3))),
            z3.If (mono, z3.If (rep, I (1), I (6)), I (4))))
def strokeSpec (ids, f=(1, 100, 10000)):
    hs, fs, rs = [hand (i) for i in ids], [finger (i) for i in ids], [row (i) for i in ids]
    return [refHand (hs), refRow (rs), refFinger (hs, fs, ids)]

def setup (btns):
    from lulua.carpalx import Carpalx, ModelParams
    p = ModelParams (kBPS=(0, 0, 1), k123S=(1, 1, 1, 1), w0HRF=(0, 0, 0, 0), pHand=Always (0), pRow=Always (0), pFinger=Always (Always (0)), fHRF=(1, 100, 10000), baselineEffort=Always (0))
    w = StubWriter ()
    return run ('Carpalx', Carpalx, p, w)

@harness ('stroke path', functions=['carpalx.Carpalx.addTriad', 'carpalx.Carpalx.effort', 'carpalx.Carpalx._triadEffort', 'carpalx.Carpalx._strokePath', 'carpalx.Carpalx._strokePathHand',
    'carpalx.Carpalx._strokePathRow', 'carpalx.Carpalx._strokePathFinger', 'carpalx.madd', 'layout.ButtonCombination.__iter__', 'keyboard.Button.__eq__'], covers=['end', 'same hand', 'repeat', 'zigzag'])
def h ():
    btns = [SymButton (f'b{i}') for i in range (3)]
    ids = [num (b.i) for b in btns]
    c = setup (btns)
    run ('addTriad', c.addTriad, tuple (comb ([], [b]) for b in btns), 1)
    e = run ('effort', lambda: c.effort)
    for b in btns: handFinger (b)
    H, R, F = strokeSpec (ids)
    def hint (m):
        return dict (kind='pos', pos=[[model_int (m, hand (i)), model_int (m, finger (i)), model_int (m, row (i))] for i in ids], ids=[model_int (m, i) for i in ids])
    CTX.hintFn = hint
    prove (eq (e, H + 100*R + 10000*F), 'hand, row and finger class of every triad follow the tables')
    cover ('end')
    if CTX.branch (z3.And (ids[0] == ids[1], ids[1] == ids[2])): cover ('repeat')
    elif CTX.branch (R == 7): cover ('zigzag')
    elif CTX.branch (H == 2): cover ('same hand')
assumption ('hands, fingers and rows of buttons are arbitrary functions of the button with values 1–2, 1–5 and any integer')
