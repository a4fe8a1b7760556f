"""C18: keyboard queries.  Any number of rows, any number of buttons in the halves of each.  Buttons are numbered in reading
order; off (i) is the number of the first one of row i.  Precondition: the buttons have pairwise different names."""
from .api import *
I = z3.IntSort ()
off, nl, nr = (z3.Function (n, I, I) for n in ('off', 'leftCount', 'rightCount'))
idAt, placeOf, rowOf = (z3.Function (n, I, I) for n in ('idAt', 'placeOf', 'rowOf'))
class World:
    """ the arbitrary keyboard """
    def __init__ (self, absent=None):
        self.n = CTX.fresh ('rows', I)
        self.absent = absent
        CTX.assume (z3.And (self.n >= 0, off (0) == 0))
        def button (y, i):
            CTX.assume (z3.And (idAt (y) >= 0, placeOf (idAt (y)) == y, rowOf (y) == i))
            if self.absent is not None: CTX.assume (idAt (y) != self.absent)
            return SymButton (i=SymNum (z3.simplify (idAt (y))))
        def row (i):
            i = z3.simplify (i)
            CTX.assume (z3.And (nl (i) >= 0, nr (i) >= 0, off (i+1) == off (i) + nl (i) + nr (i), off (i) >= 0))
            left = AbsSeq ('left', lambda j: button (z3.simplify (off (i) + j), i), nl (i))
            right = AbsSeq ('right', lambda j: button (z3.simplify (off (i) + nl (i) + j), i), nr (i))
            return VList ([VList ([], left), VList ([], right)])
        self.rows = VList ([], AbsSeq ('rows', row, self.n))
def named (snap):
    """ positions by location """
    return {'.'.join (map (str, p)): num (x[1]) for p, x in snap.items () if p[-1] in ('pos', 'i', 'j') and x[0] == 'atom' and loops.isNum (x[1])}
def places (w, snap):
    ps = named (snap)
    out = {}
    for k, q in ps.items ():
        out[f'off {k}'] = off (q)
        for l, p in ps.items ():
            if k != l:
                out[f'left {k} {l}'] = off (q - 1) + p
                out[f'right {k} {l}'] = off (q - 1) + nl (q - 1) + p
    return out
def make (absent=None):
    from lulua.keyboard import PhysicalKeyboard
    w = World (absent)
    k = object.__new__ (PhysicalKeyboard)
    k.name = k.description = 'any'
    k.rows, k._buttonToRow = w.rows, POISON         # the row table has its own harness
    for n in getattr (PhysicalKeyboard, '__slots__', ()):
        if not hasattr (k, n): raise Unsupported ('more state than rows and the row table')
    CTX.terms = lambda snap: places (w, snap)
    CTX.roots['k'] = k
    return w, k
@harness ('keys', functions=['keyboard.PhysicalKeyboard.keys', 'keyboard.PhysicalKeyboard.__iter__'], covers=['end'])
def h ():
    w, k = make ()
    g = Ghost (y=0)
    CTX.roots['g'] = g
    for b in drain (run ('keys', k.keys), 'next key'):
        prove (num (b.i) == idAt (num (g.y)), 'keys come in reading order: row by row, left half before right half')
        g.y = g.y + 1
    prove (num (g.y) == off (w.n), 'all keys')
    cover ('end')
@harness ('length', functions=['keyboard.PhysicalKeyboard.__len__', 'keyboard.PhysicalKeyboard.__iter__'], covers=['end'])
def h ():
    w, k = make ()
    n = run ('len', lambda: models.vlen (k))
    prove (num (n) == off (w.n), 'length is the number of buttons')
    cover ('end')
def lookup (f):
    w, k = make ()
    kpos = CTX.fresh ('kpos', I)
    CTX.assume (z3.And (kpos >= 0, kpos < off (w.n), idAt (kpos) >= 0, placeOf (idAt (kpos)) == kpos))
    b = SymButton (i=SymNum (idAt (kpos)))
    CTX.preds = lambda snap: {f'{n}: not there yet': t <= kpos for n, t in places (w, snap).items ()}
    r = run ('lookup', lambda: f (k, b.name))
    prove (num (r.i) == idAt (kpos), 'a name leads to the button of that name')
    cover ('found')
def lookupAbsent (f):
    a = CTX.fresh ('absent', I)
    CTX.assume (a >= 0)
    w, k = make (a)
    b = SymButton (i=SymNum (a))
    r, e = call ('lookup', lambda: f (k, b.name), raises=(KeyError,))
    prove (isinstance (e, KeyError), 'a name that is not on the keyboard gives a key error')
    cover ('not found')
FN = ['keyboard.PhysicalKeyboard.__getitem__', 'keyboard.PhysicalKeyboard.find', 'keyboard.PhysicalKeyboard.keys']
harness ('lookup', functions=FN, covers=['found']) (lambda: lookup (lambda k, n: k[n]))
harness ('find', functions=FN, covers=['found']) (lambda: lookup (lambda k, n: k.find (n)))
harness ('lookup of an unknown name', functions=FN, covers=['not found']) (lambda: lookupAbsent (lambda k, n: k[n]))
harness ('find of an unknown name', functions=FN, covers=['not found']) (lambda: lookupAbsent (lambda k, n: k.find (n)))
def built (b, w):
    """ the keyboard made by its constructor; its table is followed at button b """
    from lulua.keyboard import PhysicalKeyboard
    made = []
    def hook (d):
        if made: return
        made.append (d)
        d.gen = Gen (b, False, 0, lambda: Int ('row'))
        d.d, d.entries = None, []
    CTX.newDict = hook
    CTX.roots['rows'] = w.rows
    CTX.terms = lambda snap: places (w, snap)
    CTX.made = made
    k = run ('PhysicalKeyboard', PhysicalKeyboard, 'any', 'any', w.rows)
    CTX.newDict = None
    prove (k.rows is w.rows, 'rows are kept')
    return k, made
@harness ('row', functions=['keyboard.PhysicalKeyboard.__init__', 'keyboard.PhysicalKeyboard.getRow'], covers=['end'])
def h ():
    w = World ()
    kpos = CTX.fresh ('kpos', I)
    CTX.assume (z3.And (kpos >= 0, kpos < off (w.n), idAt (kpos) >= 0, placeOf (idAt (kpos)) == kpos))
    b = SymButton (i=SymNum (idAt (kpos)))
    made = []
    def preds (snap):
        out = {}
        m = CTX.made
        if not m: return out
        g = m[0].gen
        if isinstance (g.value, (int, SymNum)): out['row of what is there'] = z3.Implies (tobool (g.present), num (g.value) == rowOf (kpos))
        for n, t in places (w, snap).items ():
            out[f'{n}: there so far'] = tobool (g.present) == (t > kpos)
        return out
    CTX.preds = preds
    k, made = built (b, w)
    if not made: raise Unsupported ('no table')
    r = run ('getRow', k.getRow, b)
    prove (num (r) == rowOf (kpos), 'the row of a button is the index of the row it is in')
    cover ('end')
@harness ('row of an unknown button', functions=['keyboard.PhysicalKeyboard.__init__', 'keyboard.PhysicalKeyboard.getRow'], covers=['end'])
def h ():
    a = CTX.fresh ('absent', I)
    CTX.assume (a >= 0)
    w = World (a)
    b = SymButton (i=SymNum (a))
    CTX.preds = lambda snap: {'not there': Not (CTX.made[0].gen.present)} if CTX.made else {}
    k, made = built (b, w)
    r, e = call ('getRow', k.getRow, b, raises=(KeyError,))
    prove (isinstance (e, KeyError), 'a button that is not on the keyboard has no row')
    cover ('end')
SHAPES = [[], [(0, 0)], [(1, 0)], [(0, 1)], [(1, 1)], [(2, 1)], [(1, 1), (1, 1)], [(0, 2), (1, 0)], [(2, 0), (0, 1)], [(1, 1), (0, 0), (1, 1)]]
@harness ('small keyboards', functions=FN, mode='unroll', refute=True, bound='keyboards of up to 3 rows with up to 2 buttons per half')
def h ():
    from lulua.keyboard import PhysicalKeyboard
    shape = SHAPES[CTX.choose (len (SHAPES))]
    bs, rows, rowIdx = [], [], []
    for i, (l, r) in enumerate (shape):
        hs = []
        for n in (l, r):
            hs.append (VList ([SymButton ('b') for _ in range (n)]))
            bs += hs[-1].items
            rowIdx += [i] * n
        rows.append (VList (hs))
    ids = [num (b.i) for b in bs]
    if len (ids) > 1: CTX.assume (z3.Distinct (ids))
    k = run ('PhysicalKeyboard', PhysicalKeyboard, 'any', 'any', VList (rows))
    what = CTX.choose (4)
    if what == 0:
        got = list (run ('keys', lambda: list (models.it (k.keys ()))))
        prove (len (got) == len (bs) and all (a is b for a, b in zip (got, bs)), 'keys come in reading order')
    elif what == 1: prove (num (run ('len', lambda: models.vlen (k))) == len (bs), 'length is the number of buttons')
    elif what == 2:
        b = SymButton ('b')
        r, e = call ('lookup', lambda: (k[b.name] if CTX.choose (2) else k.find (b.name)), raises=(KeyError,))
        if e is not None: prove (And (*[num (b.i) != i for i in ids]), 'key error only for names that are not there')
        else: prove (Or (*[And (num (b.i) == num (x.i), r is x) for x in bs]), 'a name leads to the button of that name')
    else:
        b = SymButton ('b')
        r, e = call ('getRow', k.getRow, b, raises=(KeyError,))
        if e is not None: prove (And (*[num (b.i) != i for i in ids]), 'no row only for buttons that are not there')
        else: prove (Or (*[And (num (b.i) == num (x.i), eq (r, i)) for x, i in zip (bs, rowIdx)]), 'the row of a button is the index of the row it is in')
    cover ('end')
assumption ('C18: buttons by the contract of C16 (equality is equality of names)')
