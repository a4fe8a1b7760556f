"""Layer/button slots and maps between them (optimizer specifications)."""
from .api import *
Slot = z3.Datatype ('Slot')
Slot.declare ('slot', ('layer', z3.IntSort ()), ('btn', z3.IntSort ()))
Slot = Slot.create ()
class SymArr (Sym):
    """ mathematical map """
    __slots__ = ()
def enc (k):
    l, b = k
    return Slot.slot (num (l), num (b.i))
def dec (t):
    t = z3.simplify (t)
    CTX.assume (Slot.btn (t) >= 0)
    return (SymNum (z3.simplify (Slot.layer (t))), SymButton (i=SymNum (z3.simplify (Slot.btn (t)))))
class SlotMap:
    """ the button map: any slots, any assignment """
    __hash__ = None
    vcx_container = 'dict'
    vcx_fields = ('arr', 'dom')
    def __init__ (self, arr, dom, fact=lambda s: None): self.arr, self.dom, self.fact = arr, dom, fact
    def vcx_isinstance (self, c): return True if c is dict or c is models.TDict else None
    def at (self, s):
        self.fact (s)
        return z3.Select (self.arr.t, s)
    def vcx_contains (self, k): return SymBool (z3.Select (self.dom.t, enc (k)))
    def __getitem__ (self, k):
        s = enc (k)
        self.fact (s)
        if not CTX.branch (z3.Select (self.dom.t, s)): raise KeyError (k)
        return dec (self.at (s))
    def get (self, k, d=None): return self[k] if bool (self.vcx_contains (k)) else d
    def __setitem__ (self, k, v):
        s = enc (k)
        self.fact (s)
        self.fact (enc (v))
        self.arr = SymArr (z3.Store (self.arr.t, s, enc (v)))
        self.dom = SymArr (z3.Store (self.dom.t, s, True))
    def update (self, o):
        for k, v in (it (o.items ()) if hasattr (o, 'items') else it (o)): self[k] = v
    def copy (self): return SlotMap (self.arr, self.dom, self.fact)
    __copy__ = copy
    def __deepcopy__ (self, memo): return self.copy ()
    def keys (self):
        f = z3.Function (f'keyAt', z3.IntSort (), Slot)
        def elem (i):
            CTX.assume (z3.Select (self.dom.t, f (i)))
            self.fact (f (i))
            return dec (f (i))
        r = AbsSeq ('slots', elem)
        CTX.assume (r.n >= 2)
        return VList ([], r)
    def vcx_iter (self): return models.viter (self.keys ())
    def items (self): raise Unsupported ('items of the button map')
def slotMap (name='M'):
    """ arbitrary one-to-one map of a set of slots onto itself """
    arr, dom = CTX.fresh (name, z3.ArraySort (Slot, Slot)), CTX.fresh ('dom' + name, z3.ArraySort (Slot, z3.BoolSort ()))
    inv = z3.Function ('inv' + name, Slot, Slot)
    more = []
    def fact (s):
        d, v = z3.Select (dom, s), z3.Select (arr, s)
        CTX.assume (z3.And (z3.Implies (d, z3.And (z3.Select (dom, v), inv (v) == s)), z3.Implies (d, z3.And (z3.Select (dom, inv (s)), z3.Select (arr, inv (s)) == s)), *[f (s) for f in more]))
    m = SlotMap (SymArr (arr), SymArr (dom), fact)
    m.inv, m.more = inv, more
    def preds (snap):
        out = {}
        for p, x in snap.items ():
            if p[0] == 'frame' and x[0] == 'node' and isinstance (x[2], tuple) and len (x[2]) == 2 and loops.isNum (x[2][0]) and hasattr (x[2][1], 'i') and loops.isNum (x[2][1].i):
                out['.'.join (map (str, p)) + ' is a slot if set'] = z3.Select (dom, enc (x[2]))
        return out
    CTX.preds = preds
    return m
class Modifier:
    """ modifier of a layer, known only as that """
    vcx_fields = ()
    __vcx_sym__ = True
    def __init__ (self, layer): self.layer = layer
    def __eq__ (self, o): return SymBool (num (self.layer) == num (o.layer)) if isinstance (o, Modifier) else NotImplemented
    def __hash__ (self): raise Unsupported ('hash of a symbolic value')
    def __repr__ (self): return f'<modifier of layer {self.layer}>'
def combination (slot):
    from lulua.layout import ButtonCombination
    l, b = slot
    return ButtonCombination (Modifier (l), VFrozenSet ([b]))
def slotOf (c):
    if not isinstance (c.modifier, Modifier): raise Unsupported ('combination not made from a layer')
    bs = list (it (c.buttons))
    if len (bs) != 1: raise Unsupported ('combination of several buttons')
    return enc ((c.modifier.layer, bs[0]))
class LayersView:
    __hash__ = None
    def __getitem__ (self, i):
        from types import SimpleNamespace
        return SimpleNamespace (modifier=VList ([Modifier (i)]), layout=None)
class MapLayout (StubLayout):
    """ layout known by its contract (C03, C18): the modifier of a layer leads to that layer """
    layers = LayersView ()
    def modifierToLayer (self, m):
        if not isinstance (m, Modifier): raise Unsupported ('unknown modifier')
        return (m.layer, 0)
pinSlot = z3.Function ('pinSlot', Slot, z3.BoolSort ())
pinLayer = z3.Function ('pinLayer', z3.IntSort (), z3.BoolSort ())
class Pins:
    """ any set of pins """
    __hash__ = None
    vcx_fields = ()
    def vcx_contains (self, k):
        l, b = k
        return SymBool (pinLayer (num (l)) if b is None else pinSlot (enc (k)))
