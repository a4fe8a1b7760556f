"""Arbitrary typing events and counter tables (shared by the statistics specifications)."""
from .api import *
comboBtn = z3.Function ('comboBtn', z3.IntSort (), z3.IntSort ())

modCount = z3.Function ('modCount', z3.IntSort (), z3.IntSort ())
class AbsSet:
    """ finite set of unknown size and contents; membership is tracked for one arbitrary element B """
    __hash__ = None
    vcx_fields = ()
    def __init__ (self, B, mk, name='set', n=None):
        self.B, self.mk = B, mk
        self.n = n if n is not None else Int ('size_' + name, 0)
        self.has = Bool ('has_' + name)
        CTX.assume (z3.Implies (self.has.t, self.n.t >= 1))
        if B is None: CTX.assume (z3.Not (self.has.t))
    def vcx_len (self): return self.n
    def __bool__ (self): return CTX.branch (self.n.t > 0)
    def vcx_iter (self): return AbsSetIter (self)
    def __iter__ (self): return AbsSetIter (self)
class AbsSetIter (VIter):
    vcx_abstract = True
    vcx_fields = ('pos', 'seen')
    def __init__ (self, s): self.s, self.pos, self.seen = s, 0, False
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= num (self.s.n), z3.Implies (tobool (self.seen), self.s.has.t)]
    def vnext (self):
        if CTX.branch (z3.simplify (num (self.pos) >= num (self.s.n))):
            CTX.assume (self.s.has.t == tobool (self.seen))
            possible ()
            return STOP
        self.pos = self.pos + 1
        here = CTX.fresh ('isB', z3.BoolSort ())
        CTX.assume (z3.Implies (here, z3.And (self.s.has.t, z3.Not (tobool (self.seen)))))
        if CTX.branch (here):
            self.seen = True
            return self.s.B
        b = self.s.mk ()
        if self.s.B is not None: CTX.assume (z3.Not (symEq (b, self.s.B)))
        possible ()
        return b

_sc = {}
def scombo ():
    """ the real class with its identity an unknown value: equality of combinations is C16's contract """
    from lulua.layout import ButtonCombination
    if ButtonCombination not in _sc:
        class SCombo (ButtonCombination):
            __slots__ = ('term', 'mods')
            __module__ = 'lulua.layout'
            vcx_fields = ()
            __vcx_sym__ = True
            def __init__ (self, term, mods=None): self.term, self.mods = term, mods
            @property
            def buttons (self): return VFrozenSet ([SymButton (i=SymNum (comboBtn (self.term)))])
            @property
            def modifier (self):
                if self.mods is not None: return self.mods
                n = SymNum (modCount (self.term))
                CTX.assume (n.t >= 0)
                return AbsSet (None, lambda: SymButton ('mod'), n=n)
            def __len__ (self): raise Unsupported ('size')
            def vcx_len (self): return self.modifier.vcx_len () + 1
            def __eq__ (self, o):
                if o is self: return True
                return SymBool (z3.simplify (self.term == o.term)) if isinstance (o, SCombo) else NotImplemented
            def __ne__ (self, o):
                r = self.__eq__ (o)
                return r if r is NotImplemented else (not r if isinstance (r, bool) else SymBool (z3.Not (r.t)))
            def __hash__ (self): raise Unsupported ('hash of a symbolic combination')
            def __repr__ (self): return f'<combo {self.term}>'
            def __reduce__ (self): raise Unsupported ('pickling')
            def __deepcopy__ (self, m): return self
            def __copy__ (self): return self
        _sc[ButtonCombination] = SCombo
    return _sc[ButtonCombination]
def combo (name='combo', mods=None):
    t = CTX.fresh (name, z3.IntSort ())
    CTX.assume (t >= 0)
    return scombo () (t, mods)
def skip (char=None):
    from lulua.writer import SkipEvent
    s = object.__new__ (SkipEvent)
    s.char = char if char is not None else SymStr (name='char')
    return s
class NotAnEvent:
    """ something that is not a typing event """
    vcx_fields = ()

def counter (d, K, present=False, value=0):
    """ makes the table d one of unknown contents of which only the entry under K is followed """
    if not isinstance (d, VDict): raise Unsupported ('the counts are not in a dict')
    d.gen = Gen (K, present, value, lambda: Int ('other'))
    d.d, d.entries = None, []
    return d
def count (d):
    """ what the table holds under its key (0: nothing) """
    return z3.If (tobool (d.gen.present), num (d.gen.value), z3.IntVal (0))
def snapshot (d): return tobool (d.gen.present), num (d.gen.value)
