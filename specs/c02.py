"""C02: layouts.  Any number of layers, of modifier alternatives per layer and of keys per layer.  The texts are followed at
entry (L, B) (key B of layer L) and alternative M of that layer, all arbitrary."""
from .typing_ import *
from .seqs import *
from .c01 import *
HARNESSES[:] = [h for h in HARNESSES if h['name'] == 'lookup']
I = z3.IntSort ()
nm, nb = (z3.Function (n, I, I) for n in ('alternatives', 'keysOf'))
modId, btnId, textId = (z3.Function (n, I, I, I) for n in ('modifierOf', 'buttonOf', 'textOf'))
modLayer, modAlt = (z3.Function (n, I, I) for n in ('layerOfModifier', 'alternativeOfModifier'))
modSize = z3.Function ('buttonsOfModifier', I, I)
btnPlace = z3.Function ('placeOfButton', I, I, I)
assumption ('C02: the trie (pygtrie.CharTrie) by its documented contract; equality and hash of buttons and combinations by C16; copy.deepcopy gives an equal, independent copy')
class Mod (SymObj):
    """ set of modifiers: alternative m of layer l """
    vcx_fields = ()
    def __bool__ (self): return CTX.branch (modSize (self.term) > 0)
    def vcx_len (self):
        CTX.assume (modSize (self.term) >= 0)
        return SymNum (modSize (self.term))
    def __init__ (self, l=None, m=None):
        self.l, self.m = l, m
        self.term = modId (l, m) if l is not None else CTX.fresh ('modifier', I)
        # different modifiers: the alternative is known by the set
        if l is not None: CTX.assume (z3.And (modLayer (self.term) == l, modAlt (self.term) == m, self.term >= 0))
class Btn (SymObj):
    """ key b of layer l """
    vcx_fields = ()
    def __init__ (self, l=None, b=None):
        self.l, self.b = l, b
        self.term = btnId (l, b) if l is not None else CTX.fresh ('button', I)
        if l is not None: CTX.assume (z3.And (btnPlace (l, self.term) == b, self.term >= 0))
class Txt (SymStr):
    vcx_fields = ()
    def __init__ (self, l=None, b=None):
        self.l, self.b = l, b
        SymStr.__init__ (self, textId (l, b) if l is not None else None)
        if l is not None: CTX.assume (self.term != strings.internId (''))
class Comb (SymObj):
    """ combination, by contract """
    vcx_fields = ()
    def __init__ (self, modifier=None, buttons=None):
        self.modifier, self.buttons = modifier, buttons
        self.term = CTX.fresh ('combination', I)
class Keys:
    """ the keys of layer l: a table of unknown size """
    vcx_fields = ()
    __hash__ = None
    def __init__ (self, w, l): self.w, self.l = w, l
    def at (self, b): return Btn (self.l, b), Txt (self.l, b)
    def items (self): return Seq (self.w, 'b', nb (self.l), self.at)
    def keys (self): return Seq (self.w, 'b', nb (self.l), lambda b: self.at (b)[0])
    vcx_iter = lambda self: self.keys ().vcx_iter ()
    def vcx_len (self): return self.items ().vcx_len ()
    def find (self, k):
        if not isinstance (k, Btn): raise Unsupported ('another key')
        p = btnPlace (self.l, k.term)
        if CTX.branch (z3.And (p >= 0, p < nb (self.l), btnId (self.l, p) == k.term)): return Txt (self.l, z3.simplify (p))
        return None
    def __getitem__ (self, k):
        t = self.find (k)
        if t is None: raise KeyError (k)
        return t
    def get (self, k, d=None):
        t = self.find (k)
        return d if t is None else t
    def vcx_contains (self, k): return self.find (k) is not None
    __contains__ = vcx_contains
def layer (w, l):
    from lulua.layout import Layer
    CTX.assume (z3.And (nm (l) >= 0, nb (l) >= 0))
    r = Layer (modifier=Seq (w, 'm', nm (l), lambda m: Mod (l, m)), layout=Keys (w, l))
    return r
class World:
    vcx_walk = True
    vcx_quiet = ('n', 'L', 'M', 'B')
    def __init__ (self):
        self.l = self.b = self.m = 0
        self.n, self.L, self.M, self.B = (CTX.fresh (x, I) for x in ('layers', 'L', 'M', 'B'))
        CTX.assume (z3.And (self.L >= 0, self.L < self.n, self.M >= 0, self.M < nm (self.L), self.B >= 0, self.B < nb (self.L)))
        self.K = Txt (self.L, self.B)
    def layers (self): return Seq (self, 'l', self.n, lambda l: layer (self, l))
class Bag:
    """ what is stored under the followed text: how often the followed combination is in it """
    vcx_walk = True
    vcx_quiet = ('t', 'here')
    def __init__ (self, t, here): self.t, self.here = t, here
    def append (self, c):
        if not isinstance (c, Comb): raise Unsupported ('something else is stored')
        m, bs = c.modifier, c.buttons
        if not isinstance (m, Mod) or not isinstance (bs, VFrozenSet) or len (bs) != 1: raise Unsupported ('unusual combination')
        b = bs._list ()[0]
        if not isinstance (b, Btn): raise Unsupported ('unusual combination')
        T, w = self.t, self.t.w
        prove (And (m.l == b.l, self.here.term == textId (b.l, b.b)), 'a text has only combinations the definition assigns to it')
        T.count = SymNum (z3.simplify (num (T.count) + z3.If (z3.And (b.l == w.L, m.m == w.M, b.b == w.B), z3.IntVal (1), z3.IntVal (0))))
    def extend (self, cs):
        from vcx import models, prelude
        if models.absIterable (cs) and CTX.mode != 'unroll': prelude.get ('each') (cs, self.append)
        else:
            for c in it (cs): self.append (c)
    def __iadd__ (self, cs):
        self.extend (cs)
        return self
class TrieStub:
    """ the trie, by its contract as a table """
    vcx_walk = True
    made = None
    def __init__ (self, *a, **k):
        if a or k: raise Unsupported ('trie made of something')
        self.w, self.count, self.present = TrieStub.world, 0, False
        TrieStub.made.append (self)
    def here (self, v):
        if not isinstance (v, Txt) or v.l is None: raise Unsupported ('some other text')
        return CTX.branch (v.term == self.w.K.term)
    def setdefault (self, v, d=None):
        if not isinstance (d, VList) or d.items or d.prefix is not None: raise Unsupported ('default')
        if self.here (v): self.present = True
        return Bag (self, v)
    def __getitem__ (self, v):
        if self.here (v) and not CTX.branch (tobool (self.present)): raise KeyError (v)
        return Bag (self, v)
    def get (self, v, d=None):
        if self.here (v) and not CTX.branch (tobool (self.present)): return d
        return Bag (self, v)
    def has_key (self, v): return self.present if self.here (v) else CTX.branch (CTX.fresh ('has', z3.BoolSort ()))
    vcx_contains = __contains__ = has_key
    def __setitem__ (self, v, d):
        if isinstance (d, Bag) and d.t is self and must (d.here.term == v.term): return      # after t[v] += …
        if not isinstance (d, VList) or d.items or d.prefix is not None: raise Unsupported ('default')
        d.append = lambda x: (_ for _ in ()).throw (Unsupported ('list that was stored'))
        if self.here (v):
            self.present = True
            self.count = 0
class ModTable (VDict):
    """ table of the modifiers: followed at alternative M of layer L """
    def __setitem__ (self, k, v):
        if not isinstance (k, Mod) or k.l is None or not isinstance (v, tuple) or len (v) != 2: raise Unsupported ('another table')
        i, l = v
        if num (i) is None or not isinstance (getattr (l, 'layout', None), Keys): raise Unsupported ('another table')
        prove (And (num (i) == k.l, l.layout.l == k.l), 'a modifier leads to its own layer and the number of it')
        if CTX.branch (k.term == self.gen.K.term): self.gen.present, self.gen.value = True, SymNum (num (i))
    def at (self, k, f):
        if not isinstance (k, Mod): raise Unsupported ('another key')
        if not must (k.term == self.gen.K.term): raise Unsupported ('another modifier')
        if not CTX.branch (tobool (self.gen.present)): return f ()
        i = num (self.gen.value)
        return SymNum (i), layer (self.w, i)
    def __getitem__ (self, k):
        def f (): raise KeyError (k)
        return self.at (k, f)
    def get (self, k, d=None): return self.at (k, lambda: d)
    def vcx_has (self, k):
        if not isinstance (k, Mod) or not must (k.term == self.gen.K.term): raise Unsupported ('another modifier')
        return self.gen.present
    def __contains__ (self, k): return bool (self.vcx_has (k))
@contextlib.contextmanager
def patched (**new):
    from lulua import layout
    old = {k: getattr (layout, k) for k in new if hasattr (layout, k)}
    if set (old) != set (new): raise Unsupported ('made of other parts')
    for k, v in new.items (): setattr (layout, k, v)
    try: yield
    finally:
        for k in old: setattr (layout, k, old[k])
def stages (w):
    """ what was done so far, seen from the positions of the loops """
    l, b, m = num (w.l), num (w.b), num (w.m)
    L, M, B = w.L, w.M, w.B
    now = lambda c: z3.Or (L < l - 1, z3.And (L == l - 1, c))
    return {'layers': L < l, 'layers before this': L < l - 1, 'keys': now (B < b), 'keys before this': now (B < b - 1), 'alternatives': now (M < m),
            'alternatives of this key': now (z3.Or (B < b - 1, z3.And (B == b - 1, M < m))), 'keys of this alternative': now (z3.Or (M < m - 1, z3.And (M == m - 1, B < b)))}
def build (w, key):
    from lulua.layout import KeyboardLayout
    tables = []
    def hook (d):
        d.__class__ = ModTable
        d.w = w
        d.gen = Gen (key, False, 0, lambda: None)
        d.d, d.entries = None, []
        tables.append (d)
    TrieStub.made, TrieStub.world = [], w
    lay = object.__new__ (KeyboardLayout)
    CTX.roots.update (w=w, lay=lay)
    def preds (snap):
        out = {}
        st = stages (w)
        for t in TrieStub.made:
            for n, c in st.items ():
                out[f'combination: {n}'] = num (t.count) == z3.If (c, z3.IntVal (1), z3.IntVal (0))
                out[f'text: {n}'] = z3.Implies (c, tobool (t.present))
        for i, t in enumerate (tables):
            g = t.gen
            if loops.isNum (g.value): out[f'layer of the modifier {i}'] = z3.Implies (tobool (g.present), num (g.value) == w.L)
            for n, c in st.items (): out[f'modifier {i}: {n}'] = tobool (g.present) == c
        k = getattr (lay, 'bufferLen', None)
        if loops.isNum (k):
            for n, c in st.items (): out[f'length: {n}'] = z3.Implies (c, num (k) >= num (w.K.vcx_len ()))
        return out
    CTX.preds = preds
    CTX.compareConstants = False
    kb = object ()
    layers = w.layers ()
    with patched (CharTrie=TrieStub, ButtonCombination=Comb):
        CTX.newDict = hook
        try: run ('KeyboardLayout', lay.__init__, 'name', layers, kb)
        finally: CTX.newDict = None
    if len (TrieStub.made) != 1 or len (tables) != 1: raise Unsupported ('made of other parts')
    prove (lay.name == 'name' and lay.layers is layers and lay.keyboard is kb, 'name, layers and keyboard are kept')
    return lay, TrieStub.made[0]
F0 = ['layout.KeyboardLayout.__init__']
def constructor ():
    w = World ()
    mod = Mod (w.L, w.M)
    lay, t = build (w, mod)
    prove (And (t.present, num (t.count) == 1), 'every text of the layout has every combination the definition assigns to it, once')
    prove (num (lay.bufferLen) >= num (w.K.vcx_len ()), 'the buffer length is not shorter than any text')
    i, l = run ('modifierToLayer', lay.modifierToLayer, mod)
    prove (And (num (i) == w.L, l.layout.l == w.L), 'a modifier leads to its own layer and the number of it')
    prove (run ('isModifier', lay.isModifier, mod), 'a modifier is known as one')
    b = Btn (w.L, w.B)
    r = run ('getText', lay.getText, Comb (mod, VFrozenSet ([b])))
    if not isinstance (r, Txt): raise Unsupported ('some other text')
    prove (And (r.l == w.L, r.b == w.B), 'the text of a combination is the one of its key in the layer of its modifier')
    cover ('end')
FQ = F0 + ['layout.KeyboardLayout.modifierToLayer', 'layout.KeyboardLayout.isModifier', 'layout.KeyboardLayout.getText', 'util.first']
harness ('layout', functions=FQ, covers=['end'], seconds=240) (constructor)
harness ('small layouts', functions=FQ, mode='unroll', refute=True, bound='up to 2 layers, alternatives and keys per layer', seconds=60) (constructor)
@harness ('unknown modifier', functions=F0 + ['layout.KeyboardLayout.modifierToLayer', 'layout.KeyboardLayout.isModifier'], covers=['end'], seconds=240)
def _ ():
    w = World ()
    x = Mod ()
    CTX.assume (modLayer (x.term) == -1)        # no alternative of any layer
    lay, t = build (w, x)
    prove (Not (run ('isModifier', lay.isModifier, x)), 'something else is not known as a modifier')
    r, e = call ('modifierToLayer', lay.modifierToLayer, x, raises=KeyError)
    prove (isinstance (e, KeyError), 'something else has no layer')
    cover ('end')
@harness ('button', functions=['layout.KeyboardLayout.getButtonText'], covers=['end'], seconds=60)
def _ ():
    from lulua.layout import KeyboardLayout
    w = World ()
    lay = object.__new__ (KeyboardLayout)
    lay.layers = w.layers ()
    b = Btn ()
    g = Ghost (y=0)
    CTX.roots.update (w=w, g=g, lay=lay)
    for r in drain (run ('getButtonText', lay.getButtonText, b), 'next layer'):
        y = num (g.y)
        p = btnPlace (y, b.term)
        has = z3.And (p >= 0, p < nb (y), btnId (y, p) == b.term)
        prove (y < w.n, 'one text per layer')
        if r is None: prove (Not (has), 'there is no text if the layer has no such key')
        elif not isinstance (r, Txt): raise Unsupported ('some other text')
        else: prove (And (has, r.l == y, r.b == p), 'the text of layer y comes at position y')
        g.y = g.y + 1
    prove (num (g.y) == w.n, 'one text per layer')
    cover ('end')
layersOf = z3.Function ('numberOfLayers', I, I)
class Copied:
    def __init__ (self, x): self.x = x
class CopyStub:
    @staticmethod
    def deepcopy (x, memo=None): return Copied (x)
    @staticmethod
    def copy (x): raise Unsupported ('shallow copy')
@harness ('copy', functions=['layout.KeyboardLayout.copy', 'layout.KeyboardLayout.__eq__'], covers=['end'], seconds=30)
def _ ():
    from lulua import layout
    made = []
    class Probe (layout.KeyboardLayout):
        def __init__ (self, name, layers, keyboard): made.append ((name, layers, keyboard))
    class Layers:
        def __init__ (self, t): self.t = t
        def __eq__ (self, o): return SymBool (self.t.term == o.t.term)
        def vcx_len (self): return SymNum (layersOf (self.t.term))
        def __len__ (self): raise Unsupported ('number of layers')
        __hash__ = None
    lay = object.__new__ (Probe)
    lay.name, lay.layers, lay.keyboard = 'some name', Layers (Btn ()), object ()
    with patched (copy=CopyStub, KeyboardLayout=Probe): r = run ('copy', lay.copy)
    if len (made) != 1 or type (r) is not Probe: raise Unsupported ('made in another way')
    name, layers, keyboard = made[0]
    if not isinstance (layers, Copied): raise Unsupported ('made in another way')
    prove (layers.x is lay.layers, 'the copy has a deep copy of the layers')
    prove (name == 'some name' and keyboard is lay.keyboard, 'the copy has the same name and is for the same keyboard')
    o = object.__new__ (Probe)
    o.layers = Layers (Btn ())
    prove (SymBool (tobool (run ('equal', lambda: lay == o)) == (o.layers.t.term == lay.layers.t.term)), 'layouts are equal exactly if their layers are')
    cover ('end')

# -- specialisation --------------------------------------------------------------
nn = z3.Function ('namesOf', I, I, I)
class Name (SymObj):
    """ name j of alternative m of layer l """
    vcx_fields = ()
    def __init__ (self, l=None, m=None, j=None):
        self.at = (l, m, j)
        self.term = CTX.fresh ('name', I)
class KeyName (SymObj):
    """ name of key b of layer l """
    vcx_fields = ()
    def __init__ (self, l=None, b=None):
        self.at = (l, b)
        self.term = CTX.fresh ('name', I)
class Found (SymObj):
    """ the button of the keyboard that has a name """
    vcx_fields = ()
    def __init__ (self, name=None):
        self.name = name
        self.term = CTX.fresh ('button', I)
class Board:
    def find (self, name):
        if not isinstance (name, (Name, KeyName)): raise Unsupported ('some other name')
        return Found (name)
    __getitem__ = find
class NameSet (SymObj):
    """ set of n buttons: those of alternative m of layer l, if any """
    vcx_fields = ()
    def __init__ (self, l=None, m=None, n=None):
        self.l, self.m, self.n = l, m, n
        self.term = CTX.fresh ('set', I)
def need (*cs):
    # what is built is followed by the position of the loops over the definition; built in another order, it is not
    # understood (and left to the runtime contract)
    if not must (z3.And (*cs)): raise Unsupported ('built in another order')
class Track:
    """ list the code builds: how long it is and what its elements are of """
    vcx_fields = ('length', 'ownerL', 'ownerM')
    vcx_container = 'list'
    __hash__ = None
    def vcx_len (self): return self.length
    def __bool__ (self): return CTX.branch (num (self.length) > 0)
    def put (self, kind):
        if self.kind not in (None, kind) or self.frozen: raise Unsupported ('list of different things')
        self.kind = kind
        return num (self.length), num (self.ownerL), num (self.ownerM)
    def append (self, x):
        lw = num (self.w.l) - 1
        if isinstance (x, Found) and isinstance (x.name, Name) and x.name.at[0] is not None:
            p, L, M = self.put ('names')
            l, m, j = x.name.at
            need (j == p, z3.Or (p == 0, z3.And (L == l, M == m)))
            self.ownerL, self.ownerM = SymNum (l), SymNum (m)
        elif isinstance (x, NameSet) and x.n is not None:
            p, L, M = self.put ('modifiers')
            need (x.n == nn (lw, p), z3.Or (x.n == 0, z3.And (x.l == lw, x.m == p)), z3.Or (p == 0, L == lw))
            self.ownerL = SymNum (z3.simplify (lw))
        elif type (x).__name__ == 'Layer':
            p, L, M = self.put ('layers')
            m, k = x.modifier, x.layout
            if not isinstance (m, Track) or m.kind not in (None, 'modifiers') or not isinstance (k, Table): raise Unsupported ('built of other parts')
            need (num (m.length) == nm (p), z3.Or (nm (p) == 0, num (m.ownerL) == p))
            need (num (k.length) == nb (p), z3.Or (nb (p) == 0, num (k.ownerL) == p))
            m.frozen = k.frozen = True
        else: raise Unsupported ('list of something else')
        self.length = self.length + 1
class Table:
    """ table the code builds: how many entries of which layer it has """
    vcx_fields = ('length', 'ownerL')
    vcx_container = 'dict'
    __hash__ = None
    def __setitem__ (self, k, v):
        if self.frozen or not isinstance (k, Found) or not isinstance (k.name, KeyName) or k.name.at[0] is None or not isinstance (v, Txt) or v.l is None: raise Unsupported ('table of something else')
        l, b = k.name.at
        p = num (self.length)
        need (b == p, v.l == l, v.b == b, z3.Or (p == 0, num (self.ownerL) == l))
        self.ownerL = SymNum (l)
        self.length = self.length + 1
@harness ('specialise', functions=['layout.GenericLayout.specialize'], covers=['end'], seconds=120)
def _ ():
    from lulua import layout
    w = World ()
    kb = Board ()
    class GenericKeys (Keys):
        def at (self, b): return KeyName (self.l, b), Txt (self.l, b)
        def find (self, k): raise Unsupported ('another key')
    def names (l, m):
        CTX.assume (nn (l, m) >= 0)
        return Seq (w, 'j', nn (l, m), lambda j: Name (l, m, j))
    def glayer (l):
        CTX.assume (z3.And (nm (l) >= 0, nb (l) >= 0))
        return layout.Layer (modifier=Seq (w, 'm', nm (l), lambda m: names (l, m)), layout=GenericKeys (w, l))
    g = object.__new__ (layout.GenericLayout)
    g.name, g.layers = 'some name', Seq (w, 'l', w.n, glayer)
    w.j = 0
    tracks, made = [], []
    def newList (v):
        v.__class__ = Track
        v.w, v.kind, v.frozen = w, None, False
        v.length, v.ownerL, v.ownerM = 0, -1, -1
        tracks.append (v)
    def newDict (v):
        v.__class__ = Table
        v.frozen = False
        v.length, v.ownerL = 0, -1
        tracks.append (v)
    def setHook (x):
        from vcx import prelude
        t = prelude.get ('collect') (x)
        if t.kind not in (None, 'names'): raise Unsupported ('set of something else')
        return NameSet (num (t.ownerL), num (t.ownerM), num (t.length))
    def preds (snap):
        out = {}
        for i, t in enumerate (tracks):
            out[f'list {i}: of this layer'] = z3.Or (num (t.length) == 0, num (t.ownerL) == num (w.l) - 1)
            if isinstance (t, Track): out[f'list {i}: of this alternative'] = z3.Or (num (t.length) == 0, num (t.ownerM) == num (w.m) - 1)
        return out
    class Probe (layout.KeyboardLayout):
        def __init__ (self, name, layers, keyboard): made.append ((name, layers, keyboard))
    CTX.roots.update (w=w, g=g)
    CTX.preds = preds
    CTX.compareConstants = False
    CTX.newList, CTX.newDict, CTX.setHook = newList, newDict, setHook
    with patched (KeyboardLayout=Probe):
        try: r = run ('specialize', g.specialize, kb)
        finally: CTX.newList = CTX.newDict = CTX.setHook = None
    if len (made) != 1 or type (r) is not Probe: raise Unsupported ('made in another way')
    name, layers, keyboard = made[0]
    if not isinstance (layers, Track) or layers.kind not in (None, 'layers'): raise Unsupported ('built of other parts')
    prove (name == 'some name' and keyboard is kb, 'the name is kept, the keyboard is the one given')
    prove (num (layers.length) == w.n, 'every layer, alternative and key is there once, in place, with the buttons of the names')
    cover ('end')
