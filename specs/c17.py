"""C17: (de)serialisation.  Buttons: every kind, every subset of the optional entries, any values, any state of the interning
tables.  Keyboards and layouts: any number of rows and keys, of layers and modifiers."""
from .seqs import *
from .c16 import *
HARNESSES[:] = []
I = z3.IntSort ()
assumption ('C17: scancodes of windows have one or two elements (the format); the row table of a keyboard as of C18')
KINDS = {'standard': 'Button', 'letter': 'LetterButton', 'multi': 'MultiRowButton'}
def scancodes ():
    k = CTX.choose (6)
    if k == 0: return None
    if k == 1: return VDict ()
    if k == 2: return VDict (xorg=Int ('sc'))
    if k == 3: return VDict (windows=VList ([Int ('sc')]))
    if k == 4: return VDict (xorg=Int ('sc'), windows=VList ([Int ('sc'), Int ('sc')]), macos=Int ('sc'))
    return VDict (windows=VList ([Int ('sc'), Int ('sc')]))
def snap (d):
    """ contents by identity """
    if isinstance (d, VDict): return ('dict', id (d), [(k, snap (v)) for k, v in d._pairs ()])
    if isinstance (d, VList): return ('list', id (d), [snap (x) for x in it (d)])
    return id (d)
def attrs (b): return [type (b), b.i] + [(n, getattr (b, n, None)) for n in ('width', 'isMarked', 'span')] + [snap (b.scancode), b.scancode]
def unchanged (b, a):
    n = attrs (b)
    return n[0] is a[0] and n[1] is a[1] and all (x[1] is y[1] for x, y in zip (n[2:5], a[2:5])) and n[5] == a[5]
def value (d, k, default): return d[k] if any (x == k for x, _ in d._pairs ()) else default
def plainData (x): return x is None or isinstance (x, (str, int, float, bool, SymStr, SymNum, SymBool)) or isinstance (x, VList) and all (plainData (y) for y in it (x)) or isinstance (x, VDict) and all (plainData (y) for _, y in x._pairs ())
def marked (x): return tobool (x) if isinstance (x, (bool, SymBool)) else z3.BoolVal (bool (x))
def isButton (b, data, what):
    """ the button is the one described """
    import lulua.keyboard as K
    kind = value (data, 'kind', 'standard')
    prove (type (b) is getattr (K, KINDS[kind]), f'{what}: kind')
    nameIs (b, data['name'], f'{what}: name')
    prove (eq (b.width, value (data, 'width', 1)), f'{what}: width')
    prove (marked (b.isMarked) == marked (value (data, 'isMarked', False)), f'{what}: mark')
    sc = value (data, 'scancode', None)
    prove (same (b.scancode, sc), f'{what}: scancode')
    if b.scancode and value (b.scancode, 'windows', None) is not None: prove (isinstance (b.scancode['windows'], tuple), f'{what}: windows scancode can be looked up')
    if kind == 'multi': prove (eq (b.span, data['span']), f'{what}: span')
def sameData (a, b, what):
    k = value (a, 'kind', 'standard')
    prove (k == value (b, 'kind', 'standard'), f'{what}: kind')
    prove (eq (a['name'], b['name']), f'{what}: name')
    prove (eq (value (a, 'width', 1), value (b, 'width', 1)), f'{what}: width')
    prove (marked (value (a, 'isMarked', False)) == marked (value (b, 'isMarked', False)), f'{what}: mark')
    prove (same (value (a, 'scancode', None), value (b, 'scancode', None)), f'{what}: scancode')
    if k == 'multi': prove (eq (value (a, 'span', None), value (b, 'span', None)), f'{what}: span')
    prove ({x for x, _ in a._pairs ()} <= {'kind', 'name', 'width', 'isMarked', 'scancode', 'span'}, f'{what}: nothing else')
@harness ('button', functions=['keyboard.Button.deserialize', 'keyboard.Button.serialize', 'keyboard.MultiRowButton.serialize'] + FUN[:1], covers=['end'], seconds=200)
def _ ():
    from lulua.keyboard import Button
    process ()
    data = VDict (name=SymStr (name='name'))
    kind = (None, 'standard', 'letter', 'multi')[CTX.choose (4)]
    if CTX.choose (2): data['width'] = Real ('width')
    if CTX.choose (2): data['isMarked'] = Bool ('marked')
    if CTX.choose (2): data['scancode'] = scancodes ()
    if kind: data['kind'] = kind
    if kind == 'multi': data['span'] = Int ('span')
    before = snap (data)
    b = run ('deserialize', Button.deserialize, data)
    prove (snap (data) == before, 'deserialising does not change the data')
    isButton (b, data, 'the button described')
    a = attrs (b)
    s = run ('serialize', b.serialize)
    prove (unchanged (b, a), 'serialising does not change the button')
    if not isinstance (s, VDict): raise Unsupported ('serialised as something else')
    prove (plainData (s), 'serialised as plain data')
    sameData (s, data, 'serialised data')
    held = snap (s)
    t = run ('serialize', b.serialize)
    prove (unchanged (b, a) and snap (s) == held, 'serialising again changes nothing')
    sameData (t, s, 'serialised again')
    c = run ('deserialize', Button.deserialize, s)
    prove (snap (s) == held and snap (data) == before and unchanged (b, a), 'deserialising again changes nothing')
    isButton (c, data, 'the button again')
    prove (tobool (run ('==', lambda: b == c)), 'the button is equal')
    cover ('end')

# -- any number of parts --------------------------------------------------------------
cnt = z3.Function ('keysInHalf', I, I, I)
nm = z3.Function ('modifiersOf', I, I)
nonEmpty = z3.Function ('nonEmpty', I, z3.BoolSort ())
class World:
    vcx_walk = True
    vcx_quiet = ('n',)
    def __init__ (self):
        self.r = self.k0 = self.k1 = self.m = 0
        self.n = CTX.fresh ('parts', I)
        CTX.assume (self.n >= 0)
class Thing (SymObj):
    """ source: part (r, h, k) as it is given; made: what it has to become """
    vcx_fields = ()
    def __init__ (self, of=None, *at):
        self.of, self.at = of, at
        self.term = CTX.fresh ('thing', I)
    def __bool__ (self): return CTX.branch (nonEmpty (self.term)) if self.of in ('names', 'keys', 'set') else True
    def serialize (self):
        if self.of != 'button': raise Unsupported ('serialised something else')
        return Thing ('made', *self.at)
class Pair:
    """ row of two halves """
    vcx_fields = ()
    __hash__ = None
    def __init__ (self, *x): self.x = x
    def vcx_iter (self): return models.viter (self.x)
    def __iter__ (self): return iter (self.x)
    def __getitem__ (self, i):
        if isinstance (i, int) and 0 <= i <= 1: return self.x[i]
        raise Unsupported ('index')
    def vcx_len (self): return 2
class Entries:
    """ description that cannot be written to """
    vcx_fields = ()
    __hash__ = None
    vcx_container = 'dict'
    def __init__ (self, **k): self.k = k
    def __getitem__ (self, k): return self.k[k]
    def get (self, k, d=None): return self.k.get (k, d)
    def vcx_contains (self, k): return k in self.k
    __contains__ = vcx_contains
def need (*cs):
    if not must (z3.And (*cs)): raise Unsupported ('built in another order')
def complete (t, n, what):
    # (a list that is still empty may be filled later on)
    if must (num (t.length) == 0): need (n == 0)
    prove (num (t.length) == n, what)
class Track:
    """ list the code builds: how long it is and what its elements are of """
    vcx_fields = ('length', 'owner', 'half')
    vcx_container = 'list'
    __hash__ = None
    def vcx_len (self): return self.length
    def __bool__ (self): return CTX.branch (num (self.length) > 0)
    def put (self, kind):
        if self.kind not in (None, kind) or self.frozen: raise Unsupported ('list of different things')
        self.kind = kind
        return num (self.length)
    def append (self, x):
        if isinstance (x, Thing) and x.of == 'made' and len (x.at) == 3:
            p = self.put ('half')
            r, h, k = x.at
            need (k == p, z3.Or (p == 0, z3.And (num (self.owner) == r, num (self.half) == h)))
            self.owner, self.half = SymNum (r), h
        elif isinstance (x, Thing) and x.of == 'set':
            p = self.put ('modifiers')
            l, m = x.at
            need (m == p, z3.Or (p == 0, num (self.owner) == l))
            self.owner = SymNum (l)
        elif isinstance (x, VList) and len (x.items) == 2 and x.prefix is None or isinstance (x, tuple) and len (x) == 2 and type (x) is tuple:
            p = self.put ('rows')
            for h, y in enumerate (it (x)):
                if not isinstance (y, Track) or y.kind not in (None, 'half'): raise Unsupported ('built of other parts')
                CTX.assume (cnt (p, h) >= 0)
                need (z3.Or (num (y.length) == 0, z3.And (num (y.owner) == p, num (y.half) == h)))
                complete (y, cnt (p, h), 'every button of a row is there')
                y.frozen = True
        else:
            p = self.put ('layers')
            self.layer (x, p)
        self.length = self.length + 1
    def layer (self, x, p):
        if type (x).__name__ == 'Layer' and self.made == 'layers': m, k = x.modifier, x.layout
        elif isinstance (x, VDict) and self.made == 'data' and set (x.d) == {'layer', 'modifier'}: m, k = x['modifier'], x['layer']
        else: raise Unsupported ('list of something else')
        if not isinstance (m, Track) or m.kind not in (None, 'modifiers') or not isinstance (k, Thing) or k.of != 'keys': raise Unsupported ('built of other parts')
        CTX.assume (nm (p) >= 0)
        need (k.at[0] == p, z3.Or (num (m.length) == 0, num (m.owner) == p))
        complete (m, nm (p), 'every modifier of a layer is there')
        m.frozen = True
@contextlib.contextmanager
def tracked (w, made=None):
    tracks = []
    def newList (v):
        v.__class__ = Track
        v.kind, v.frozen, v.made = None, False, made
        v.length, v.owner, v.half = 0, -1, 0
        tracks.append (v)
    def preds (snap):
        out = {}
        for i, t in enumerate (tracks):
            o, n = num (t.owner), num (t.length)
            out[f'list {i}: of this one'] = z3.Or (n == 0, o == num (w.r) - 1)
            for h in (0, 1): out[f'list {i}: half {h}'] = z3.Or (n == 0, num (t.half) == h)
        return out
    CTX.roots['w'] = w
    CTX.preds, CTX.compareConstants = preds, False
    CTX.newList = newList
    try: yield tracks
    finally: CTX.newList = CTX.setHook = CTX.listHook = None
def rowsOf (w, of):
    def row (r):
        r = z3.simplify (r)
        CTX.assume (z3.And (cnt (r, 0) >= 0, cnt (r, 1) >= 0))
        return Pair (*[Seq (w, f'k{h}', cnt (r, h), lambda k, h=h: Thing (of, r, h, z3.simplify (k))) for h in (0, 1)])
    return Seq (w, 'r', w.n, row)
def allRows (rows, w, what):
    if not isinstance (rows, Track) or rows.kind not in (None, 'rows'): raise Unsupported ('built of other parts')
    prove (num (rows.length) == w.n, what)
@harness ('keyboard from data', functions=['keyboard.PhysicalKeyboard.deserialize'], covers=['end'])
def _ ():
    from lulua import keyboard
    w = World ()
    made = []
    def des (d):
        if not isinstance (d, Thing) or d.of != 'data': raise Unsupported ('deserialised something else')
        return Thing ('made', *d.at)
    class Probe (keyboard.PhysicalKeyboard):
        def __init__ (self, name, description, rows): made.append ((name, description, rows))
    old, keyboard.Button = keyboard.Button, type ('Button', (), {'deserialize': staticmethod (des)})
    try:
        with tracked (w): r = run ('deserialize', Probe.deserialize, Entries (name='some name', description='some description', rows=rowsOf (w, 'data')))
    finally: keyboard.Button = old
    if len (made) != 1 or type (r) is not Probe: raise Unsupported ('made in another way')
    prove (made[0][:2] == ('some name', 'some description'), 'name and description are kept')
    allRows (made[0][2], w, 'every button described is at its place, once')
    cover ('end')
@harness ('data of a keyboard', functions=['keyboard.PhysicalKeyboard.serialize', 'keyboard.PhysicalKeyboard.__iter__'], covers=['end'])
def _ ():
    from lulua.keyboard import PhysicalKeyboard
    w = World ()
    k = object.__new__ (PhysicalKeyboard)
    k.name, k.description, k.rows, k._buttonToRow = 'some name', 'some description', rowsOf (w, 'button'), POISON
    rows = k.rows
    CTX.roots['k'] = k
    with tracked (w): d = run ('serialize', k.serialize)
    if not isinstance (d, VDict): raise Unsupported ('serialised as something else')
    prove (set (d.d) == {'name', 'description', 'rows'} and d['name'] == 'some name' and d['description'] == 'some description', 'name and description are kept')
    allRows (d['rows'], w, 'every button is described at its place, once')
    prove (k.rows is rows and k.name == 'some name' and k.description == 'some description', 'the keyboard is not changed')
    cover ('end')
def allLayers (t, w, what):
    if not isinstance (t, Track) or t.kind not in (None, 'layers'): raise Unsupported ('built of other parts')
    prove (num (t.length) == w.n, what)
@harness ('layout from data', functions=['layout.GenericLayout.deserialize', 'layout.GenericLayout.__init__'], covers=['end'])
def _ ():
    from lulua.layout import GenericLayout
    w = World ()
    class Names (Thing):
        def vcx_iter (self): return Seq (w, 'k0', CTX.fresh ('names', I), lambda j: SymStr ()).vcx_iter ()
    def one (l):
        l = z3.simplify (l)
        CTX.assume (nm (l) >= 0)
        return Entries (modifier=Seq (w, 'm', nm (l), lambda m: Names ('names', l, z3.simplify (m))), layer=Thing ('keys', l))
    def asSet (x):
        if isinstance (x, Names) and x.of == 'names': return Thing ('set', *x.at)
        raise Unsupported ('set of something else')
    with tracked (w, 'layers'):
        CTX.setHook = asSet
        g = run ('deserialize', GenericLayout.deserialize, Entries (name='some name', layout=Seq (w, 'r', w.n, one)))
    prove (type (g) is GenericLayout and g.name == 'some name', 'the name is kept')
    allLayers (g.layers, w, 'every layer described is there with its modifiers and texts, once, in order')
    cover ('end')
@harness ('data of a layout', functions=['layout.GenericLayout.serialize'], covers=['end'])
def _ ():
    from lulua import layout
    w = World ()
    class NameSet (Thing):
        def vcx_iter (self): return Seq (w, 'k0', CTX.fresh ('names', I), lambda j: SymStr ()).vcx_iter ()
    def one (l):
        l = z3.simplify (l)
        CTX.assume (nm (l) >= 0)
        return layout.Layer (modifier=Seq (w, 'm', nm (l), lambda m: NameSet ('names', l, z3.simplify (m))), layout=Thing ('keys', l))
    def asList (x):
        if isinstance (x, NameSet) and x.of == 'names': return Thing ('set', *x.at)
    g = object.__new__ (layout.GenericLayout)
    layers = Seq (w, 'r', w.n, one)
    g.name, g.layers = 'some name', layers
    CTX.roots['g'] = g
    with tracked (w, 'data'):
        CTX.listHook = asList
        d = run ('serialize', g.serialize)
    if not isinstance (d, VDict): raise Unsupported ('serialised as something else')
    prove (set (d.d) == {'name', 'layout'} and d['name'] == 'some name', 'the name is kept')
    allLayers (d['layout'], w, 'every layer is described with its modifiers and texts, once, in order')
    prove (g.layers is layers and g.name == 'some name', 'the layout is not changed')
    cover ('end')
