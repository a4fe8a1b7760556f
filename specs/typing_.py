"""Writer.type over an unknown text S on a layout known by its contract (C02): bufferLen is the length of the longest text of the
layout, and looking up a text gives the longest text of the layout that is a prefix of it with the combinations that type it."""
from .api import *
I = z3.IntSort ()
best = z3.Function ('longestMatch', I, I)               # at a position of S; 0 if there is none
short = z3.Function ('shorterMatch', I, I, I)           # what a lookup finds that is not given enough of S
typed = z3.Function ('typedBy', I, I)                   # position whose match a combination types
class Comb (SymObj):
    """ a combination, known only as that """
    vcx_fields = ()
    def __init__ (self, t=None): self.term = t if t is not None else CTX.fresh ('comb', I)
class World:
    """ ghost: y characters of S accounted for, q read, previous combination """
    vcx_walk = True
    def __init__ (self, n=None):
        self.S = Base ('S', n=n)
        self.y = self.q = 0
        self.prev = None
        self.B = CTX.fresh ('bufferLen', I)
        CTX.assume (self.B >= 1)
        self.S.anchor = lambda: self.y
        if CTX.mode == 'unroll': CTX.assume (z3.And (self.S.n <= 5, self.B <= 3))
        CTX.terms = lambda snap: {'read ahead': z3.If (num (self.y) + self.B <= self.S.n, num (self.y) + self.B, self.S.n)}
    def vcx_inv (self): return [num (self.y) >= 0, num (self.y) <= num (self.q), num (self.q) <= self.S.n]
class Fd:
    """ contract of the text stream: read (n) gives n characters, or what is left """
    vcx_walk = True
    def __init__ (self, w): self.w = w
    def read (self, k=None):
        w = self.w
        lo, n = num (w.q), w.S.n
        hi = n
        if k is not None and not (isinstance (k, int) and k < 0):
            if CTX.branch (num (k) >= 0): hi = z3.If (lo + num (k) <= n, lo + num (k), n)
        hi = z3.simplify (hi)
        w.q = SymNum (hi)
        if CTX.branch (lo >= hi): return ''
        return w.S.slice (lo, hi)
class Layout (StubLayout):
    def __init__ (self, w):
        StubLayout.__init__ (self)
        self.w, self.bufferLen = w, SymNum (w.B)
    def __call__ (self, buf):
        if isinstance (buf, str) and buf == '': raise KeyError ()
        if not isinstance (buf, Rope) or len (buf.segs) != 1 or buf.segs[0][0] != 'sl': raise Unsupported ('lookup of something else than a part of the text')
        _, b, lo, hi = buf.segs[0]
        lo, hi = z3.simplify (lo), z3.simplify (hi)
        if CTX.branch (lo >= hi): raise KeyError ()
        m = fact (self.w, lo)
        p = lo
        if not CTX.branch (hi - lo >= m):
            m = short (lo, hi)
            CTX.assume (z3.And (m >= 0, m <= hi - lo))
            p = z3.IntVal (-1)
        if not CTX.branch (m > 0): raise KeyError ()
        def elem (i):
            c = Comb (alternative (lo, m, i))
            CTX.assume (typed (c.term) == p)
            return c
        n = CTX.fresh ('alternatives', I)
        CTX.assume (n >= 1)
        r = VList ([], AbsSeq ('alternatives', elem, n))
        r.what = (lo, m)
        return (b.slice (lo, z3.simplify (lo + m)), r)
alternative = z3.Function ('alternative', I, I, I, I)
def fact (w, p):
    CTX.assume (z3.And (best (p) >= 0, best (p) <= w.B, z3.Implies (p <= w.S.n, best (p) <= w.S.n - p)))
    return best (p)
_w = {}
def writerOf (w):
    """ the real writer; the choice among alternatives by its contract (C03) """
    from lulua.writer import Writer
    if Writer not in _w:
        class W (Writer):
            __slots__ = ('world', 'chosen')
            def chooseCombination (self, combinations):
                if not isinstance (combinations, VList) or not hasattr (combinations, 'what'): raise Unsupported ('choice among something else')
                i = CTX.fresh ('choice', I)
                CTX.assume (z3.And (i >= 0, i < combinations.prefix.n))
                c = combinations.prefix.elem (i)
                self.chosen (self, combinations, c)
                return c
        W.__module__ = Writer.__module__
        _w[Writer] = W
    k = _w[Writer] (Layout (w))
    k.hands = POISON
    k.chosen = lambda *a: None
    k.world = w
    return k
def same (a, b):
    if a is None or b is None: return z3.BoolVal (a is b)
    if not isinstance (a, Comb) or not isinstance (b, Comb): return z3.BoolVal (False)
    return a.term == b.term
assumption ('text streams: read (n) returns n characters, or what is left')
assumption ('KeyboardLayout.__call__ and bufferLen by contract (C02): longest text of the layout that is a prefix; length of the longest text')
assumption ('the layout has at least one text')
