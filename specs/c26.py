"""C26: drawings.  Any number of rows and of keys in their halves, any widths and settings.  Key (R, H, K) (row, half, place in
it) is arbitrary.  xOf/yOf: where a key belongs.  Numbers are the mathematical ones (rounding of coordinates is not modelled)."""
from .seqs import *
I, RS = z3.IntSort (), z3.RealSort ()
cnt = z3.Function ('keysInHalf', I, I, I)
wd = z3.Function ('widthOf', I, I, I, RS)
xOf = z3.Function ('xOf', I, I, I, RS)
yOf = z3.Function ('yOf', I, RS)
keyId = z3.Function ('keyOf', I, I, I, I)
idRow, idHalf, idPlace = (z3.Function (n, I, I) for n in ('rowOfKey', 'halfOfKey', 'placeOfKey'))
assumption ('C26: coordinates are real numbers (floating point rounding of positions is not modelled); svgwrite draws what it is told to; iterating a keyboard gives its rows and keys as of C18')
class Key (SymObj):
    vcx_fields = ()
    def __init__ (self, w=None, r=None, h=None, k=None):
        self.place, self.w = (r, h, k), w
        if r is None:
            self.term = CTX.fresh ('key', I)
            return
        self.term = keyId (r, h, k)
        self.width, self.name = SymNum (wd (r, h, k)), SymStr ()
        self.isMarked = SymBool (CTX.fresh ('marked', z3.BoolSort ()))
        CTX.assume (z3.And (idRow (self.term) == r, idHalf (self.term) == h, idPlace (self.term) == k))
        w.at (r, h, k)
class World:
    vcx_walk = True
    vcx_quiet = ('n', 'B', 'M', 'G', 'R', 'H', 'K')
    def __init__ (self):
        self.r = self.k0 = self.k1 = 0
        self.n, self.R, self.H, self.K = (CTX.fresh (x, I) for x in ('rows', 'R', 'H', 'K'))
        self.B, self.M, self.G = (CTX.fresh (x, RS) for x in ('buttonWidth', 'margin', 'gap'))
        CTX.assume (z3.And (self.B > 0, self.M >= 0, self.G >= 0, yOf (0) == 0))
        CTX.assume (z3.And (self.R >= 0, self.R < self.n, self.H >= 0, self.H <= 1, self.K >= 0, self.K < cnt (self.R, self.H)))
        self.at (self.R, self.H, self.K)
        self.followed = Key (self, self.R, self.H, self.K)
    def at (self, r, h, k):
        """ the distances """
        w = wd (r, h, k) * self.B
        CTX.assume (z3.And (wd (r, h, k) > 0, w > 0, xOf (r, h, k + 1) == xOf (r, h, k) + w + self.M))
    def row (self, r):
        r = z3.simplify (r)
        CTX.assume (z3.And (cnt (r, 0) >= 0, cnt (r, 1) >= 0, xOf (r, 0, 0) == 0, xOf (r, 1, 0) == xOf (r, 0, cnt (r, 0)) + self.G, yOf (r + 1) == yOf (r) + self.B + self.M, yOf (r) == z3.ToReal (r) * (self.B + self.M)))
        return VList ([Seq (self, 'k%d' % h, cnt (r, h), lambda k, h=h: Key (self, r, z3.IntVal (h), k)) for h in (0, 1)])
    def settings (self):
        from lulua.render import RendererSettings
        d = dict.fromkeys (RendererSettings._fields, 1)
        return RendererSettings (**dict (d, buttonMargin=SymNum (self.M), middleGap=SymNum (self.G), buttonWidth=SymNum (self.B)))
class Board:
    vcx_fields = ()
    def __init__ (self, w):
        self.w = w
        self.rows = Seq (w, 'r', w.n, w.row)
    def vcx_iter (self): return self.rows.vcx_iter ()
    def vcx_len (self): raise Unsupported ('number of keys')
class Places (VDict):
    """ table of the positions, followed at one key """
    vcx_fields = ('there', 'x', 'y')
    def __setitem__ (self, k, v):
        v = list (v) if isinstance (v, VList) else v
        if not isinstance (k, Key) or k.place[0] is None or not isinstance (v, tuple) or len (v) != 2: raise Unsupported ('another table')
        w, (r, h, p), (x, y) = self.w, k.place, map (num, v)
        prove (And (x == xOf (r, h, p), y == yOf (r)), 'keys follow each other at the distance of width plus margin, with the gap between the halves, row by row')
        fw, nw = wd (w.R, w.H, w.K) * w.B, wd (r, h, p) * w.B
        fx, fy = num (self.x), num (self.y)
        if CTX.branch (k.term == w.followed.term):
            prove (Not (self.there), 'every key has one position')
            self.there, self.x, self.y = True, SymNum (x), SymNum (y)
        else:
            prove (Or (Not (self.there), x >= fx + fw, fx >= x + nw, y >= fy + w.B, fy >= y + w.B), 'no two keys overlap')
    def at (self, k, f):
        if not isinstance (k, Key): raise Unsupported ('another key')
        if not must (k.term == self.w.followed.term): raise Unsupported ('another key')
        if not CTX.branch (tobool (self.there)): return f ()
        return (self.x, self.y)
    def vcx_has (self, k):
        if not isinstance (k, Key): raise Unsupported ('another key')
        if CTX.branch (k.term == self.w.followed.term): return self.there
        return False if self.w.fresh (k) else SymBool (CTX.fresh ('has', z3.BoolSort ()))
    def __contains__ (self, k): return bool (self.vcx_has (k))
    def __getitem__ (self, k):
        def f (): raise KeyError (k)
        return self.at (k, f)
    def get (self, k, d=None): return self.at (k, lambda: d)
@harness ('positions', functions=['render.Renderer._calcDimensions', 'render.Renderer.buttonWidth'], covers=['end'], seconds=240)
def _ ():
    from lulua.render import Renderer
    w = World ()
    made = []
    w.fresh = lambda k: True
    def hook (d):
        d.__class__ = Places
        d.w = w
        d.there, d.x, d.y = False, SymNum (z3.RealVal (0)), SymNum (z3.RealVal (0))
        made.append (d)
    o = Renderer (Board (w), settings=w.settings ())
    CTX.roots.update (w=w, o=o)
    def terms (snap):
        r, a, b = num (w.r), num (w.k0), num (w.k1)
        fw = xOf (w.R, w.H, w.K) + wd (w.R, w.H, w.K) * w.B
        out = {'x left': xOf (r - 1, 0, a), 'x right': xOf (r - 1, 1, b), 'y': yOf (r), 'y before': yOf (r - 1)}
        zero = z3.RealVal (0)
        out['row end'] = z3.If (w.R < r, fw, zero)
        out['row end before'] = z3.If (w.R < r - 1, fw, zero)
        out['in this row, left'] = z3.If (z3.And (w.R == r - 1, w.H == 0, w.K < a), fw, zero)
        out['in this row, right'] = z3.If (z3.And (w.R == r - 1, z3.Or (w.H == 0, w.K < b)), fw, zero)
        out['rows above'] = z3.If (w.R < r, yOf (w.R) + w.B, zero)
        out['rows above this'] = z3.If (w.R < r - 1, yOf (w.R) + w.B, zero)
        return out
    def preds (snap):
        out = {}
        r, a, b = num (w.r), num (w.k0), num (w.k1)
        e = xOf (w.R, w.H, w.K) + wd (w.R, w.H, w.K) * w.B
        # order of the places
        out['lemma: rows'] = z3.Implies (w.R < r, yOf (w.R) + w.B <= yOf (r))
        out['lemma: rows before'] = z3.Implies (w.R < r - 1, yOf (w.R) + w.B <= yOf (r - 1))
        out['lemma: left'] = z3.Implies (z3.And (w.R == r - 1, w.H == 0, w.K < a), e <= xOf (r - 1, 0, a))
        out['lemma: right'] = z3.Implies (z3.And (w.R == r - 1, z3.Or (w.H == 0, w.K < b)), e <= xOf (r - 1, 1, b))
        out['lemma: y'] = yOf (r) >= 0
        out['lemma: y before'] = yOf (r - 1) >= 0
        out['lemma: x left'] = xOf (r - 1, 0, a) >= 0
        out['lemma: x right'] = xOf (r - 1, 1, b) >= 0
        for p, x in snap.items ():
            if x[0] == 'atom' and loops.isNum (x[1]) and p[0] not in ('w', 'o') and p[-1] not in ('x', 'y', 'pos'):
                for n, c in (('rows', w.R < r), ('rows before', w.R < r - 1)): out[f'{p} not less than {n}'] = z3.Implies (c, z3.And (num (x[1]) >= e, num (x[1]) >= 0))
        for i, d in enumerate (made):
            t = tobool (d.there)
            out[f'{i}: place'] = z3.Implies (t, z3.And (num (d.x) == xOf (w.R, w.H, w.K), num (d.y) == yOf (w.R)))
            out[f'{i}: rows'] = t == (w.R < r)
            out[f'{i}: rows, left'] = t == z3.Or (w.R < r - 1, z3.And (w.R == r - 1, w.H == 0, w.K < a))
            out[f'{i}: rows, right'] = t == z3.Or (w.R < r - 1, z3.And (w.R == r - 1, z3.Or (w.H == 0, w.K < b)))
        return out
    CTX.terms, CTX.preds = terms, preds
    CTX.compareConstants = False
    CTX.newDict = hook
    try: m, size = run ('_calcDimensions', o._calcDimensions, o.keyboard)
    finally: CTX.newDict = None
    if not isinstance (m, Places): raise Unsupported ('another table')
    width, height = map (num, size)
    prove (m.there, 'every key has a position')
    x, y = num (m.x), num (m.y)
    prove (And (x == xOf (w.R, w.H, w.K), y == yOf (w.R)), 'every key keeps its position')
    prove (And (x >= 0, y >= 0), 'keys lie right of and below the origin')
    prove (x + wd (w.R, w.H, w.K) * w.B <= width, 'keys lie within the width of the drawing')
    prove (y + w.B <= height, 'keys lie within the height of the drawing')
    cover ('end')

# -- drawing ---------------------------------------------------------------------
px, py, pw = (z3.Function (n, I, RS) for n in ('xOfKey', 'yOfKey', 'widthOfKey'))
class Cap (SymObj):
    """ key p of the keyboard """
    vcx_fields = ()
    def __init__ (self, p=None):
        self.p = p
        self.term = p if p is not None else CTX.fresh ('key', I)
        if p is None: return
        self.width, self.name = SymNum (pw (p)), SymStr ()
        self.isMarked = SymBool (CTX.fresh ('marked', z3.BoolSort ()))
class Drawing:
    vcx_walk = True
    vcx_quiet = ('n', 'B')
    def __init__ (self):
        self.i = 0
        self.n, self.B = CTX.fresh ('keys', I), CTX.fresh ('buttonWidth', RS)
        CTX.assume (z3.And (self.n >= 0, self.B > 0))
class Shape:
    vcx_fields = ()
    def __init__ (self, *a, **k):
        self.args, self.kw = a, k
        self.attribs = VDict ()
    def add (self, x): return x
class Rect (Shape): pass
class Group (Shape):
    vcx_fields = ('adds', 'caps')
    made = []
    def __init__ (self, **k):
        Shape.__init__ (self, **k)
        self.adds = self.caps = 0
        self.children = []
        Group.made.append (self)
    def isCap (self): return self.attribs.get ('class', self.kw.get ('class_')) == 'cap'
    def add (self, x):
        self.adds = self.adds + 1
        self.children.append (x)
        if isinstance (x, Rect):
            self.caps = self.caps + 1
            if self.isCap ():
                w = Group.world
                p = z3.simplify (num (w.i) - 1)
                at, size = x.kw.get ('insert'), x.kw.get ('size')
                if at is None or size is None: raise Unsupported ('drawn in another way')
                (x0, y0), (sx, sy) = map (num, it (at)), map (num, it (size))
                prove (And (x0 == px (p), y0 == py (p)), 'a key is drawn at its position')
                prove (And (sx == pw (p) * w.B, sy == w.B), 'a key is drawn in its size')
        return x
class SvgStub:
    class container: Group = Group
    class shapes:
        Rect, Line, Circle = Rect, Shape, Shape
    class text: Text, TSpan = Shape, Shape
class PosMap:
    vcx_fields = ()
    def __getitem__ (self, k):
        if not isinstance (k, Cap) or k.p is None: raise Unsupported ('another key')
        return (SymNum (px (k.p)), SymNum (py (k.p)))
class LayoutStub:
    vcx_fields = ()
    def isModifier (self, m): return SymBool (CTX.fresh ('modifier', z3.BoolSort ()))
    def modifierToLayer (self, m):
        for i in (1, 2):
            if CTX.branch (CTX.fresh ('layer', z3.BoolSort ())): return i, None
        return 3, None
    def getButtonText (self, b):
        for t in ([None, None], ['a', None]):
            if CTX.branch (CTX.fresh ('text', z3.BoolSort ())): return VList (t)
        return VList (['a', '\u200e'])
class Highlights:
    vcx_fields = ()
    def get (self, k, d=None):
        if CTX.branch (CTX.fresh ('highlighted', z3.BoolSort ())): return d
        return SymNum (CTX.fresh ('highlight', RS))
class Finger:
    name = 'RING'
class WriterStub:
    vcx_fields = ()
    def getHandFinger (self, b): return Finger, Finger
@harness ('drawing', functions=['render.Renderer.render', 'render.Renderer._drawCap', 'render.Renderer._drawCapShadow', 'render.Renderer._drawMarker', 'render.Renderer._drawHighlight', 'render.Renderer._drawLabel', 'render.Renderer.buttonWidth'], covers=['end'], seconds=120)
def _ ():
    from lulua import render
    w = Drawing ()
    class Kb:
        vcx_fields = ()
        def keys (self): return Seq (w, 'i', w.n, Cap)
    d = dict.fromkeys (render.RendererSettings._fields, 1)
    st = render.RendererSettings (**dict (d, buttonWidth=SymNum (w.B)))
    size = (SymNum (CTX.fresh ('W', RS)), SymNum (CTX.fresh ('Hh', RS)))
    class R (render.Renderer):
        def _calcDimensions (self, *a, **k): return PosMap (), size
    if not hasattr (render.Renderer, '_calcDimensions'): raise Unsupported ('made of other parts')
    o = R (Kb (), layout=LayoutStub (), writer=WriterStub (), settings=st)
    o.keyHighlight = Highlights ()
    Group.made, Group.world = [], w
    old, render.svgwrite = render.svgwrite, SvgStub
    CTX.roots.update (w=w, o=o)
    CTX.compareConstants = False
    def preds (snap): return {f'group {i}: one per key': num (g.caps) == num (w.i) for i, g in enumerate (Group.made)}
    CTX.preds = preds
    try: g, s = run ('render', o.render)
    finally: render.svgwrite = old
    if not isinstance (g, Group) or not must (num (g.adds) == len (g.children)): raise Unsupported ('drawn in another way')
    caps = [c for c in g.children if isinstance (c, Group) and c.isCap ()]
    if len (caps) != 1: raise Unsupported ('drawn in another way')
    prove (num (caps[0].caps) == w.n, 'every key is drawn exactly once')
    prove (s[0] is size[0] and s[1] is size[1], 'the size of the drawing is the calculated one')
    cover ('end')
