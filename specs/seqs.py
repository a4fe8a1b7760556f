"""Sequences of unknown length by length and element; a ghost field counts what was drawn of them."""
from .api import *
class Draw (VIter):
    vcx_abstract = True
    vcx_fields = ('pos',)
    known = None
    def __init__ (self, w, g, n, elem):
        self.w, self.g, self.n, self.elem, self.pos = w, g, n, elem, 0
        setattr (w, g, 0)
        CTX.assume (n >= 0)
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= self.n]
    def vnext (self):
        p = z3.simplify (num (self.pos))
        if CTX.mode == 'unroll' and z3.is_int_value (p) and p.as_long () >= 2: CTX.assume (self.n <= 2); possible ()
        if CTX.branch (z3.simplify (p >= self.n)): return STOP
        self.pos = self.pos + 1
        setattr (self.w, self.g, SymNum (z3.simplify (p + 1)))
        return self.elem (p)
class Seq:
    """ list of unknown length """
    vcx_fields = ()
    __hash__ = None
    def __init__ (self, w, g, n, elem): self.w, self.g, self.n, self.elem = w, g, n, elem
    known = None
    def vcx_iter (self):
        d = Draw (self.w, self.g, self.n, self.elem)
        d.known = self.known
        return d
    def vcx_len (self):
        CTX.assume (self.n >= 0)
        return SymNum (self.n)
    def __bool__ (self): return CTX.branch (self.n > 0)
    def __getitem__ (self, i):
        if isinstance (i, slice):
            a, b = num (i.start or 0), num (i.stop) if i.stop is not None else self.n
            if i.step is not None or not must (z3.And (a >= 0, b >= 0)): raise Unsupported ('slice')
            e = z3.If (b < self.n, b, self.n)
            return Seq (self.w, self.g, z3.simplify (z3.If (e > a, e - a, z3.IntVal (0))), lambda k: self.elem (z3.simplify (a + k)))
        i = num (i)
        if i is None: raise Unsupported ('index')
        if CTX.branch (z3.And (i >= 0, i < self.n)): return self.elem (z3.simplify (i))
        raise Unsupported ('index')
