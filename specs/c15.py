"""C15: the optimizer command.  Any number of layers, of modifiers, of keys, of mutations and of triads.  Slot S = (SL, SK) (layer
and key number) is arbitrary, its text is expected at T, the place the optimal map assigns to it.  By contract (C12, C13, C14):
the optimizer returns a rearrangement of the map it is given, its energy is the effort of the triads on its state."""
from .seqs import *
I = z3.IntSort ()
B = z3.BoolSort ()
F = lambda n, *s: z3.Function (n, *s)
nm, nn = F ('modifiersOf', I, I), F ('buttonsOfModifier', I, I, I)
letter, isMod = F ('isLetter', I, B), F ('isModifier', I, B)
PL, PK, iL, iK = (F (n, I, I, I) for n in ('newLayer', 'newKey', 'oldLayer', 'oldKey'))
has = F ('hasText', I, I, B)
chain = F ('then', I, I, I, I)
aL, aK = F ('layerAt', I, I, I), F ('keyAt', I, I, I)
tw, tid = F ('weightOfTriad', I, I), F ('triadAt', I, I)
en = F ('energyOf', I, z3.RealSort ())
assumption ('C15: the optimizer by its contracts (C12: it returns the best state it saw; C13: the map stays a rearrangement; C14: its energy is that of the triads on the state); keyboard and layout lookups as of C18 and C02; argparse, pickle, yaml and fnmatch as documented (the runtime contract goes through the real ones); assert statements are executed; an interrupt is not modelled')
def dom (l, k): return z3.And (letter (k), z3.Not (isMod (k)))
def need (*c):
    if not must (z3.And (*c)): raise Unsupported ('built in another way')
class World:
    vcx_walk = True
    vcx_quiet = ('tables', 'n', 'keys', 'SL', 'SK', 'Y', 'j', 't', 'p', 's')
    def __init__ (self):
        self.l = self.k = self.m = self.j = self.t = self.p = self.s = 0
        self.n, self.keys, self.SL, self.SK, self.Y = (CTX.fresh (x, I) for x in ('layers', 'keys', 'SL', 'SK', 'Y'))
        CTX.assume (z3.And (self.n >= 1, self.keys >= 0, self.SL >= 0, self.SL < self.n, self.SK >= 0, self.SK < self.keys, self.Y >= 0, self.Y < self.n))
        self.T = self.place (self.SL, self.SK)
    def place (self, l, k):
        """ where the optimal map puts it """
        a, b = PL (l, k), PK (l, k)
        CTX.assume (z3.Implies (dom (l, k), z3.And (iL (a, b) == l, iK (a, b) == k, dom (a, b), a >= 0, a < self.n, b >= 0, b < self.keys)))
        return z3.If (dom (l, k), a, l), z3.If (dom (l, k), b, k)
class Key (SymObj):
    """ key k of the keyboard, or key j of modifier (l, m) """
    vcx_fields = ()
    def __init__ (self, k=None, at=None):
        self.k, self.at = k, at
        self.term = k if k is not None else CTX.fresh ('key', I)
        self.name = Name (self)
    def vcx_isinstance (self, c):
        from lulua.keyboard import LetterButton, Button
        if c is Button: return True
        if c is not LetterButton or self.k is None: raise Unsupported ('kind of something else')
        return SymBool (letter (self.k))
class Name (SymObj):
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, key=None):
        self.key = key
        self.term = key.term if key is not None else CTX.fresh ('name', I)
class Text (SymObj):
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, l=None, k=None):
        self.at = (l, k)
        self.term = CTX.fresh ('text', I)
class Mod:
    vcx_fields = ()
    __hash__ = None
    def __init__ (self, w, l, m): self.w, self.l, self.m = w, l, m
    def vcx_iter (self):
        CTX.assume (nn (self.l, self.m) >= 0)
        return Seq (self.w, 'j', nn (self.l, self.m), lambda j: Key (None, (self.l, self.m, z3.simplify (j)))).vcx_iter ()
class Triads:
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w, n): self.w, self.n = w, n
    def items (self):
        s = Seq (self.w, 't', self.n, self.elem)
        s.all = True
        return s
    def elem (self, i): raise Unsupported ('triads in no order')
    def vcx_len (self): return SymNum (self.n)
def slot (x):
    if not isinstance (x, tuple) or len (x) != 2 or num (x[0]) is None or not isinstance (x[1], Key) or x[1].k is None: raise Unsupported ('something else')
    return num (x[0]), x[1].k
KINDS = 'slots', 'names', 'out'
class Track:
    """ list the code builds """
    vcx_fields = ('length', 'sig', 'there', 'frozen', 'kind')
    vcx_quiet = ('sig', 'frozen', 'kind')
    vcx_container = 'list'
    __hash__ = None
    def vcx_len (self): return self.length
    def __bool__ (self): return CTX.branch (num (self.length) > 0)
    def append (self, x):
        w, p = self.w, num (self.length)
        if self.frozen is not False: raise Unsupported ('list changed later on')
        if isinstance (x, tuple) and type (x) is tuple:
            if len (x) == 2 and x[1] is None: x = (x[0], Key (z3.IntVal (-1)))
            l, k = slot (x)
            self.put ('slots')
            self.sig = SymNum (chain (num (self.sig), l, k))
            self.there = SymBool (z3.simplify (z3.Or (tobool (self.there), z3.And (l == w.SL, k == w.SK))))
        elif isinstance (x, Name) and x.key.at is not None:
            self.put ('names')
            l, m, j = x.key.at
            need (j == p, z3.Or (p == 0, num (self.sig) == chain (l, m, 0)))
            self.sig = SymNum (chain (l, m, 0))
        elif type (x).__name__ == 'Layer' and isinstance (x.modifier, Track) and isinstance (x.layout, Table):
            self.put ('out')
            need (num (x.modifier.length) == 0)
            x.modifier.frozen = x.layout.frozen = True
        else: raise Unsupported ('list of something else')
        self.length = self.length + 1
    def put (self, kind):
        c = KINDS.index (kind)
        if not must (z3.Or (num (self.length) == 0, num (self.kind) == c)): raise Unsupported ('list of different things')
        self.kind = SymNum (z3.IntVal (c))
    def of (self, kind): return must (z3.Or (num (self.length) == 0, num (self.kind) == KINDS.index (kind)))
    def vcx_iter (self):
        if not self.of ('slots'): raise Unsupported ('iteration')
        s = num (self.sig)
        return Seq (self.w, 's', num (self.length), lambda p: (SymNum (aL (s, p)), Key (aK (s, p)))).vcx_iter ()
    def __getitem__ (self, i):
        if not self.of ('out') or num (i) is None: raise Unsupported ('index')
        i = num (i)
        if not CTX.branch (z3.And (i >= 0, i < num (self.length))): raise Unsupported ('index')
        if not must (num (self.length) == self.w.n): raise Unsupported ('layers not made in advance')
        return View (self.w, i)
class View:
    """ layer i of the new layout """
    vcx_fields = ()
    def __init__ (self, w, i): self.w, self.i, self.modifier, self.layout = w, i, ModView (w, i), TextView (w, i)
class Out:
    """ what is written into the new layout at the followed places """
    vcx_fields = ('mods', 'has')
    vcx_walk = True
    def __init__ (self): self.mods, self.has = 0, False
class ModView:
    vcx_fields = ()
    vcx_container = 'list'
    __hash__ = None
    def __init__ (self, w, i): self.w, self.i = w, i
    def append (self, x):
        w, o = self.w, self.w.out
        if not isinstance (x, Track) or not x.of ('names'): raise Unsupported ('other modifiers')
        x.frozen = True
        if CTX.branch (self.i == w.Y):
            c = num (o.mods)
            CTX.assume (nn (w.Y, c) >= 0)
            prove (And (num (x.length) == nn (w.Y, c), z3.Or (num (x.length) == 0, num (x.sig) == chain (w.Y, c, 0))), 'the modifiers of a layer are unchanged')
            o.mods = o.mods + 1
class TextView:
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w, i): self.w, self.i = w, i
    def vcx_has (self, k):
        if isinstance (k, Key): return False      # (its keys are names)
        if not isinstance (k, Name) or k.key.k is None: raise Unsupported ('another key')
        tl, tk = self.w.T
        if CTX.branch (z3.And (self.i == tl, k.key.k == tk)): return self.w.out.has
        return False                              # (the followed place is an arbitrary one)
    def __contains__ (self, k): return bool (self.vcx_has (k))
    def __setitem__ (self, k, v):
        w, o = self.w, self.w.out
        if not isinstance (k, Name) or k.key.k is None or not isinstance (v, Text): raise Unsupported ('another entry')
        (l, key), (tl, tk) = v.at, w.T
        there = CTX.branch (z3.And (self.i == tl, k.key.k == tk))
        if there:
            prove (And (l == w.SL, key == w.SK), 'every text is at the place the optimal map assigns to it')
            o.has = True
class Table (VDefaultDict):
    """ map of slots the code builds (or the still empty one of a new layer) """
    vcx_fields = ('frozen', 'half')
    vcx_quiet = ('frozen', 'half')
    def start (self, w):
        self.w, self.frozen, self.reads, self.pending, self.built, self.half = w, False, [], [], None, SymNum (z3.IntVal (0))
        w.tables.append (self)
    def __setitem__ (self, k, v):
        slot (k)
        if self.frozen is not False: raise Unsupported ('map changed later on')
        if self.built is None: raise Unsupported ('built in another way')
        src = [a for a, b in self.reads if b is v]
        if not src: raise Unsupported ('mutation of another kind')
        self.pending.append ((k, src[0]))
        ks, vs = [x for x, _ in self.pending], [y for _, y in self.pending]
        eq = lambda a, b: must (z3.And (*[x == y for x, y in zip (slot (a), slot (b))]))
        if len (ks) == 2 and eq (ks[0], vs[1]) and eq (ks[1], vs[0]): self.reads, self.pending = [], []
        self.half = SymNum (z3.IntVal (len (self.pending)))
    def __getitem__ (self, k):
        l, kk = slot (k)
        if self.built is None: raise Unsupported ('built in another way')
        v = (SymNum (CTX.fresh ('toLayer', I)), Key (CTX.fresh ('toKey', I)))
        for a, b in self.reads:
            if must (z3.And (*[x == y for x, y in zip (slot (a), (l, kk))])): return b
        if not self.knownSlot (l, kk): raise KeyError (k)
        self.reads.append ((k, v))
        return v
    def knownSlot (self, l, k): return CTX.branch (dom (l, k))
    def vcx_len (self): return SymNum (CTX.fresh ('slots', I))
    def vcx_has (self, k): raise Unsupported ('another question')
    def __contains__ (self, k): return bool (self.vcx_has (k))
class Zipped:
    def __init__ (self, w, a, b): self.w, self.a, self.b = w, a, b
    def vcx_dict (self):
        a, b = self.a, self.b
        if not isinstance (a, Track) or not isinstance (b, Track) or not a.of ('slots') or not b.of ('slots'): raise Unsupported ('map of something else')
        need (num (a.length) == num (b.length), num (a.sig) == num (b.sig))
        w = self.w
        prove (tobool (a.there) == dom (w.SL, w.SK), 'all slots of letter keys that are no modifiers take part, no others')
        a.frozen = b.frozen = True
        CTX.newDict, old = None, CTX.newDict
        try: t = VDict ()
        finally: CTX.newDict = old
        t.__class__ = Table
        t.start (w)
        t.built = a
        return t
class Slots:
    """ set of the slots of the map """
    def __init__ (self, w): self.w = w
    def vcx_iter (self):
        def elem (i): raise Unsupported ('slots in some order')
        n = CTX.fresh ('slots', I)
        CTX.assume (n >= 2)
        return Seq (self.w, 's', n, elem).vcx_iter ()
class Optimal:
    """ rearrangement the optimizer has found """
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w): self.w = w
    def keys (self): return Slots (self.w)
    values = keys
    def look (self, k, f):
        l, kk = slot (k)
        self.w.place (l, kk)
        if not CTX.branch (dom (l, kk)): return f ()
        return (SymNum (PL (l, kk)), Key (PK (l, kk)))
    def __getitem__ (self, k):
        def f (): raise KeyError (k)
        return self.look (k, f)
    def get (self, k, d=None): return self.look (k, lambda: d)
    def vcx_has (self, k): return SymBool (dom (*slot (k)))
    def __contains__ (self, k): return bool (self.vcx_has (k))
class State:
    def __init__ (self, w, i, m): self.w, self.i, self.buttonMap = w, i, m
for randomize in (False, True):
    for limited in (False, True):
        harness ('command' + (', random start' if randomize else '') + (', limited' if limited else ''), functions=['optimize.optimize'], covers=['end'], seconds=400) (lambda r=randomize, l=limited: command (r, l))
def command (randomize, limited):
    import lulua.optimize as S
    class Stub:
        def __init__ (self, **k): self.__dict__.update (k)
    w = World ()
    w.out, w.tables = Out (), []
    N, limit = CTX.fresh ('triads', I), CTX.fresh ('limit', I)
    CTX.assume (z3.And (N >= 0, limit > 0 if limited else limit <= 0))
    tracks, said, opts, made = [], [], [], []
    sorted_ = Seq (w, 't', N, lambda i: (tid (i), SymNum (tw (i))))
    class Args:
        keyboard, layout, model = 'some keyboard', 'some layout', 'some model'
        triadLimit, steps = SymNum (limit), SymNum (CTX.fresh ('steps', I))
        @property
        def pin (self): return Seq (w, 'p', CTX.fresh ('pins', I), lambda i: (SymNum (CTX.fresh ('layer', I)), SymStr () if CTX.branch (CTX.fresh ('one key', B)) else None))
        @property
        def mutate (self):
            # mutations of slots that are on the keyboard
            def one (i):
                r = []
                for x in 'ab':
                    l, k = CTX.fresh ('layer', I), CTX.fresh ('key', I)
                    CTX.assume (z3.And (l >= 0, l < w.n, k >= 0, k < w.keys, dom (l, k)))
                    r.append ((SymNum (l), Name (Key (k))))
                return tuple (r)
            return Seq (w, 'p', CTX.fresh ('mutations', I), one)
    args = Args ()
    args.randomize = randomize
    class Parser:
        def __init__ (self, *a, **k): pass
        def add_argument (self, *a, **k): pass
        def parse_args (self, *a): return args
    class Keyboard:
        vcx_fields = ()
        name = 'some keyboard'
        def keys (self): return Seq (w, 'k', w.keys, lambda k: Key (z3.simplify (k)))
        def __getitem__ (self, n):
            if not isinstance (n, Name): raise Unsupported ('another name')
            return n.key
        find = __getitem__
    class Layers (Seq):
        pass
    def layer (l):
        l = z3.simplify (l)
        CTX.assume (nm (l) >= 1)
        return S.Layer (modifier=Seq (w, 'm', nm (l), lambda m: Mod (w, l, z3.simplify (m))), layout=POISON)
    class Comb:
        def __init__ (self, modifier=None, buttons=None): self.modifier, self.buttons = modifier, buttons
    def one (b):
        b = list (it (b))
        if len (b) != 1 or not isinstance (b[0], Key) or b[0].k is None: raise Unsupported ('other keys')
        return b[0].k
    class Layout:
        vcx_fields = ()
        name = 'some layout'
        layers = Seq (w, 'l', w.n, layer)
        def isModifier (self, b): return SymBool (isMod (one (b)))
        def getText (self, c):
            if not isinstance (c, Comb) or not isinstance (c.modifier, Mod): raise Unsupported ('another combination')
            l, k = c.modifier.l, one (c.buttons)
            if not CTX.branch (has (l, k)): raise KeyError (c)
            return Text (l, k)
    layout, keyboard = Layout (), Keyboard ()
    best = State (w, CTX.fresh ('best', I), Optimal (w))
    class Opt:
        """ contract of the optimizer """
        vcx_fields = ()
        def __init__ (self, buttonMap, triads, layout_, pins, writer, model=None):
            if not isinstance (buttonMap, Table): raise Unsupported ('another map')
            prove (num (buttonMap.half) == 0, 'mutations keep the map a rearrangement')
            buttonMap.frozen = True
            if not isinstance (triads, Seq) or triads is not sorted_ and getattr (triads, 'of', None) is not sorted_: raise Unsupported ('other triads')
            prove (triads.n == z3.If (z3.And (limit > 0, limit < N), limit, N), 'as many triads as requested are used')
            prove (layout_ is layout and writer == 'the writer' and model == 'the model', 'the optimizer is given layout, writer and model')
            self.state = State (w, CTX.fresh ('state', I), POISON)
            opts.append (self)
        def mutate (self, withEnergy=True): return SymNum (CTX.fresh ('diff', z3.RealSort ()))
        def run (self, steps=None): return best, SymNum (CTX.fresh ('relative', z3.RealSort ()))
        def energy (self): return SymNum (en (self.state.i))
        def _resetEnergy (self): pass
    class Sliced (Seq): pass
    def getitem (s):
        r = Seq (w, 't', z3.simplify (z3.If (num (s.stop) < N, num (s.stop), N)), sorted_.elem)
        r.of = sorted_
        return r
    class SortedSeq (Seq):
        def __getitem__ (self, i):
            if isinstance (i, slice) and i.step is None and i.start in (None, 0) and i.stop is not None and num (i.stop) is not None:
                if not must (num (i.stop) >= 0): raise Unsupported ('slice')
                return getitem (i)
            raise Unsupported ('index')
    sorted_.__class__ = SortedSeq
    def sortHook (xs, key, reverse):
        if not getattr (xs, 'all', None): raise Unsupported ('sorted in another way')
        i, j = CTX.fresh ('i', I), CTX.fresh ('j', I)
        a, b = num (key ((i, SymNum (tw (i))))), num (key ((j, SymNum (tw (j)))))
        if a is None or b is None: raise Unsupported ('sorted in another way')
        prove (z3.Implies (tw (i) > tw (j), a > b if bool (reverse) else a < b), 'the most frequent triads come first')
        return sorted_
    def newList (v):
        v.__class__ = Track
        v.w, v.kind, v.frozen = w, SymNum (z3.IntVal (-1)), False
        v.length, v.sig, v.there = 0, SymNum (z3.IntVal (0)), False
        tracks.append (v)
    def newDict (v):
        v.__class__ = Table
        v.start (w)
    def setHook (x):
        if isinstance (x, Slots): return 'the slots'
    class Generic:
        def __init__ (self, name, layers): made.append ((name, layers))
        def serialize (self): return self
    dumped = []
    def text (x): return ''.join (p if isinstance (p, str) else '\0' for p in x.parts) if isinstance (x, strings.FStr) else x
    def show (*a, **k): said.append ((a, k))
    new = dict (argparse=Stub (ArgumentParser=Parser), pickle=Stub (load=lambda fd: dict (triads=Stub (triads=Triads (w, N)))), sys=Stub (stdin=Stub (buffer=None), stdout='stdout', stderr='stderr'), defaultKeyboards=Any (keyboard), defaultLayouts=Any (Stub (specialize=lambda kb: layout)), Writer=lambda l: 'the writer', models=Any ('the model'), fnmatch=lambda a, b: SymBool (CTX.fresh ('matches', B)), LayoutOptimizer=Opt, ButtonCombination=Comb, GenericLayout=Generic, yaml=Stub (dump=lambda x, fd=None, **k: dumped.append ((x, fd))), logging=Stub (info=lambda *a: None, warning=lambda *a: None, basicConfig=lambda **k: None, INFO=0, debug=lambda *a: None))
    old = {}
    for k, v in new.items ():
        if not hasattr (S, k): raise Unsupported ('made of other parts')
        old[k] = getattr (S, k)
        setattr (S, k, v)
    S.print, S.zip = show, lambda a, b: Zipped (w, a, b)
    CTX.newList, CTX.newDict, CTX.setHook, CTX.sortHook = newList, newDict, setHook, sortHook
    CTX.listHook = lambda xs: xs if isinstance (xs, (Seq, tuple)) else None
    CTX.roots['w'] = w
    CTX.compareConstants = False
    def preds (snap):
        r = {}
        l, k = num (w.l), num (w.k)
        byLayer, byKey = w.SL < l, z3.Or (w.SL < l - 1, z3.And (w.SL == l - 1, w.SK < k))
        for i, t in enumerate (tracks):
            for c, kind in enumerate (KINDS): r[f'list {i} of {kind}'] = z3.Or (num (t.length) == 0, num (t.kind) == c)
            r[f'list {i}: layers so far'] = tobool (t.there) == z3.And (byLayer, dom (w.SL, w.SK))
            r[f'list {i}: keys so far'] = tobool (t.there) == z3.And (byKey, dom (w.SL, w.SK))
            r[f'list {i}: names of this modifier'] = z3.Or (num (t.length) == 0, num (t.sig) == chain (l - 1, num (w.m) - 1, 0))
            for j, u in enumerate (tracks[:i]):
                r[f'lists {i}, {j} alike'] = z3.And (num (t.sig) == num (u.sig), num (t.length) == num (u.length))
        for i, t in enumerate (w.tables): r[f'map {i}: no half mutation'] = num (t.half) == 0
        o = w.out
        r['out: layers so far'] = tobool (o.has) == z3.And (byLayer, has (w.SL, w.SK))
        r['out: keys so far'] = tobool (o.has) == z3.And (byKey, has (w.SL, w.SK))
        zero = z3.IntVal (0)
        r['modifiers: layers so far'] = num (o.mods) == z3.If (w.Y < l, nm (w.Y), zero)
        r['modifiers: so far'] = num (o.mods) == z3.If (w.Y < l - 1, nm (w.Y), z3.If (w.Y == l - 1, num (w.m), zero))
        return r
    CTX.preds = preds
    try: run ('optimize', S.optimize)
    finally:
        CTX.newList = CTX.newDict = CTX.setHook = CTX.sortHook = CTX.listHook = None
        del S.print, S.zip
        for k, v in old.items (): setattr (S, k, v)
    if len (made) != 1 or len (opts) != 1 or len (dumped) != 1: raise Unsupported ('made in another way')
    layers = made[0][1]
    if not isinstance (layers, Track) or not layers.of ('out'): raise Unsupported ('other layers')
    prove (num (layers.length) == w.n, 'the layout has as many layers as before')
    prove (tobool (w.out.has) == has (w.SL, w.SK), 'no text is lost, none is made up')
    prove (num (w.out.mods) == nm (w.Y), 'all modifiers of a layer are kept')
    prove (isinstance (dumped[0][0], Generic) and dumped[0][1] == 'stdout', 'the layout is emitted')
    shown = [v[0] for a, k in said for x in a if isinstance (x, strings.FStr) for p, v in zip (x.parts, x.parts[1:]) if isinstance (p, str) and p.endswith ('energy: ') and not isinstance (v, str)]
    if len (shown) != 1: raise Unsupported ('energy reported in another way')
    prove (num (shown[0]) == en (best.i), 'the reported energy is that of the emitted layout')
    cover ('end')
class Any:
    def __init__ (self, x): self.x = x
    def keys (self): return ('one', 'another')
    def get (self, k, d=None): return self.x
    def __getitem__ (self, k): return self.x
