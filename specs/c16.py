"""C16: buttons by name.  The interning tables are arbitrary (any number of buttons with any names was created before),
related by an invariant that every creation is proved to preserve.  Another process is another arbitrary state of the
tables.  Sets of buttons in combinations are unknown sets."""
from .events import *
import copyreg
assumption ('pickle follows its protocol: __reduce_ex__, __getstate__, __setstate__; containers are rebuilt from their transferred elements')
assumption ('frozenset equality and hashing follow the equality and hashing of the elements')
FUN = ['keyboard.Button.__init__', 'keyboard.Button.__eq__', 'keyboard.Button.__hash__', 'keyboard.Button.__reduce__', 'keyboard.Button.name', 'keyboard.LetterButton.__init__', 'keyboard.MultiRowButton.__init__', 'keyboard.MultiRowButton.__reduce__']
def term (k):
    if isinstance (k, SymStr): return k.term
    if isinstance (k, str): return z3.IntVal (internId (k))
    t = num (k)
    if t is None: raise Unsupported (f'unexpected key {k!r}')
    return t
class Table:
    """ map with unknown contents """
    vcx_walk = True
    __hash__ = None
    def __init__ (self, name, val):
        self.wrap, self.proc = val, None
        self.has = CTX.fresh ('has_' + name, z3.ArraySort (z3.IntSort (), z3.BoolSort ()))
        self.val = CTX.fresh ('val_' + name, z3.ArraySort (z3.IntSort (), z3.IntSort ()))
        self.n = CTX.fresh ('size_' + name, z3.IntSort ())
        CTX.assume (self.n >= 0)
    def on (self, t):
        """ what the invariant says about this key of the tables as they were in the beginning """
        if self.proc is not None: self.proc.instance (self, t)
    def vcx_contains (self, k):
        self.on (term (k))
        return SymBool (z3.simplify (z3.Select (self.has, term (k))))
    def __contains__ (self, k): return bool (self.vcx_contains (k))
    def __getitem__ (self, k):
        self.on (term (k))
        if not CTX.branch (z3.Select (self.has, term (k))): raise KeyError (k)
        return self.wrap (z3.simplify (z3.Select (self.val, term (k))))
    def get (self, k, d=None): return self[k] if k in self else d
    def __setitem__ (self, k, v):
        t = term (k)
        self.on (t)
        self.n = z3.simplify (z3.If (z3.Select (self.has, t), self.n, self.n + 1))
        self.has, self.val = z3.Store (self.has, t, True), z3.Store (self.val, t, term (v))
    def setdefault (self, k, d=None):
        if k in self: return self[k]
        self[k] = d
        return d
    def vcx_len (self): return SymNum (self.n)
    def snap (self): return self.has, self.val
def inv (n2i, i2n, nxt, n=None, i=None):
    """ the tables are inverse to each other, ids are below the next one: instance for the name n or the id i """
    if n is not None:
        v = z3.Select (n2i[1], n)
        return z3.Implies (z3.Select (n2i[0], n), z3.And (v >= 0, v < nxt, z3.Select (i2n[0], v), z3.Select (i2n[1], v) == n))
    v = z3.Select (i2n[1], i)
    return z3.Implies (z3.Select (i2n[0], i), z3.And (i >= 0, i < nxt, z3.Select (n2i[0], v), z3.Select (n2i[1], v) == i))
def extends (old, new, k): return z3.Implies (z3.Select (old[0], k), z3.And (z3.Select (new[0], k), z3.Select (new[1], k) == z3.Select (old[1], k)))
class Process:
    """ arbitrary tables; of the same process later on if earlier is given """
    def __init__ (self, earlier=None):
        from lulua.keyboard import Button
        if not all (hasattr (Button, x) for x in ('_idToName', '_nameToId', '_nextNameId')): raise Unsupported ('other tables')
        self.n2i, self.i2n = Table ('n2i', lambda t: SymNum (t)), Table ('i2n', lambda t: SymStr (t))
        self.next = CTX.fresh ('next', z3.IntSort ())
        CTX.assume (z3.And (self.next >= 0, self.n2i.n == self.next, self.i2n.n == self.next))
        self.start = {'n': self.n2i.snap (), 'i': self.i2n.snap ()}
        self.earlier = earlier
        self.n2i.proc = self.i2n.proc = self
        Button._nameToId, Button._idToName, Button._nextNameId = self.n2i, self.i2n, SymNum (self.next)
    def instance (self, table, t, depth=1):
        k = 'n' if table is self.n2i else 'i'
        a, b = self.start['n'], self.start['i']
        CTX.assume (inv (a, b, self.next, **{k: t}))
        if self.earlier is not None:
            CTX.assume (extends (self.earlier[k], self.start[k], t))
        if depth: self.instance (self.i2n if k == 'n' else self.n2i, z3.simplify (z3.Select (self.start[k][1], t)), depth-1)
    def preserved (self):
        """ the invariant holds again, nothing was changed or removed """
        from lulua.keyboard import Button
        n2i, i2n = Button._nameToId, Button._idToName
        if n2i is not self.n2i or i2n is not self.i2n: raise Unsupported ('tables replaced')
        n, i = CTX.fresh ('anyName', z3.IntSort ()), CTX.fresh ('anyId', z3.IntSort ())
        CTX.assume (n >= 0)
        self.instance (n2i, n); self.instance (i2n, i)
        self.instance (i2n, z3.Select (n2i.val, n)); self.instance (n2i, z3.Select (i2n.val, i))
        a, b, nxt = n2i.snap (), i2n.snap (), num (Button._nextNameId)
        abstraction (z3.And (inv (a, b, nxt, n=n), inv (a, b, nxt, i=i), n2i.n == nxt, i2n.n == nxt, nxt >= 0), 'the tables stay inverse to each other')
        abstraction (z3.And (extends (self.start['n'], a, n), extends (self.start['i'], b, i)), 'the tables keep what they hold')
        return {'n': a, 'i': b}
def process (earlier=None): return Process (earlier)
def scancode ():
    k = CTX.choose (4)
    if k == 0: return None
    if k == 1: return VDict (xorg=Int ('sc'))
    if k == 2: return VDict (xorg=Int ('sc'), windows=VList ([Int ('sc'), Int ('sc')]))
    return VDict (windows=(Int ('sc'),))
def same (a, b):
    """ scancodes up to list or tuple """
    if not a or not b: return z3.BoolVal (not a and not b)
    conds = []
    ka, kb = [k for k, _ in a._pairs ()], [k for k, _ in b._pairs ()]
    if sorted (ka) != sorted (kb): return z3.BoolVal (False)
    for k in ka:
        x, y = a[k], b[k]
        if num (x) is not None: conds.append (eq (x, y))
        else:
            x, y = list (it (x)), list (it (y))
            if len (x) != len (y): return z3.BoolVal (False)
            conds += [eq (u, v) for u, v in zip (x, y)]
    return z3.And (conds)
def create (name, plain=False):
    from lulua.keyboard import Button, LetterButton, MultiRowButton
    k = CTX.choose (3)
    cls = (Button, LetterButton, MultiRowButton)[k]
    kw = dict (width=Real ('width'), isMarked=Bool ('marked'), scancode=None if plain else scancode ())
    if plain and CTX.choose (2): kw = {}
    a = (Int ('span'),) if k == 2 else ()
    b = run ('create a button', cls, name, *a, **kw)
    return b, cls, kw, a
def attributes (b, cls, kw, a, what):
    prove (type (b) is cls, f'{what}: kind')
    prove (eq (b.width, kw['width']), f'{what}: width')
    m, k = b.isMarked, kw['isMarked']
    prove (tobool (m) == tobool (k) if isinstance (m, (bool, SymBool)) else eq (m, k), f'{what}: mark')
    prove (same (b.scancode, kw['scancode']), f'{what}: scancode')
    if a: prove (eq (b.span, a[0]), f'{what}: span')
def nameIs (b, n, what):
    prove (eq (run ('name', lambda: b.name), n), what)
def hashOf (b):
    h = run ('hash', type (b).__hash__, b)
    return h.key if isinstance (h, models.SymHash) else h
def sameHash (a, b):
    """ condition under which the hashes are surely equal """
    if a is b: return z3.BoolVal (True)
    if isinstance (a, tuple) and isinstance (b, tuple): return z3.And ([z3.BoolVal (len (a) == len (b))] + [sameHash (x, y) for x, y in zip (a, b)])
    if type (a) is not type (b) and not (num (a) is not None and num (b) is not None): return z3.BoolVal (False)
    return symEq (a, b) if num (a) is None else eq (a, b)

@harness ('in the beginning', functions=FUN[:1])
def h0 ():
    from lulua.keyboard import Button
    import lulua.writer, lulua.stats, lulua.optimize, lulua.report
    if not all (hasattr (Button, x) for x in ('_idToName', '_nameToId', '_nextNameId')): raise Unsupported ('other tables')
    a, b, n = Button._nameToId, Button._idToName, Button._nextNameId
    if isinstance (a, Table): a, b, n = START
    START[:] = [a, b, n]
    abstraction (len (a) == len (b) == n and all (b[i] == k and i < n for k, i in a._pairs ()), 'the tables are inverse to each other')
START = []
@harness ('identity', functions=FUN, covers=['same', 'different'], seconds=100)
def h1 ():
    t = process ()
    n, m = SymStr (name='n'), SymStr (name='m')
    x, *_ = create (n, True)
    t1 = t.preserved ()
    nameIs (x, n, 'a button has the name it was created with')
    p = process (t1)
    p.instance (p.n2i, n.term); p.instance (p.n2i, m.term)
    y, *_ = create (m, True)
    p.preserved ()
    same_ = n.term == m.term
    p.instance (p.i2n, num (x.i)); p.instance (p.i2n, num (y.i))
    r, e = run ('==', lambda: x == y), run ('!=', lambda: x != y)
    prove (tobool (r) == same_, 'buttons are equal exactly if their names are')
    prove (tobool (e) == z3.Not (same_), 'buttons differ exactly if their names do')
    nameIs (x, n, 'a button keeps its name')
    nameIs (y, m, 'a button has the name it was created with')
    prove (z3.Implies (same_, sameHash (hashOf (x), hashOf (y))), 'equal buttons hash alike')
    if CTX.choose (2):
        CTX.assumeChecked (same_)
        cover ('same')
    else:
        CTX.assumeChecked (z3.Not (same_))
        cover ('different')

# -- pickling ------------------------------------------------------------------------
class Stale:
    """ hash computed by another process """
    def __init__ (self, key): self.key = key
class ButtonSet (SymObj):
    """ unknown set of buttons; in the other process the set of the buttons of the same names """
    SORT = 'ButtonSet'
image = z3.Function ('transferred', sort ('ButtonSet'), sort ('ButtonSet'))
class Key (SymObj): SORT = 'Key'
keyImage = z3.Function ('transferredKey', sort ('Key'), sort ('Key'))
def transfer (x, memo=None):
    """ what the other process gets """
    memo = {} if memo is None else memo
    if id (x) in memo: return memo[id (x)][0]
    def keep (v):
        memo[id (x)] = (v, x)
        return v
    if x is None or isinstance (x, (bool, int, float, str, bytes, SymNum, SymBool, SymStr, Rope, type)) or isinstance (x, (StubWriter, StubKeyboard, StubLayout)): return x
    if isinstance (x, models.SymHash): return models.SymHash (Stale (x.key))
    if isinstance (x, ButtonSet): return keep (ButtonSet (image (x.term)))
    if isinstance (x, Key): return keep (Key (keyImage (x.term)))
    if hasattr (type (x), '__members__'): return x
    if isinstance (x, tuple):
        v = [transfer (y, memo) for y in x]
        return tuple (v) if type (x) is tuple else type (x) (*v)
    if isinstance (x, VList): return keep (VList ([transfer (y, memo) for y in x._whole ()]))
    if isinstance (x, VSet): return keep (type (x) ([transfer (y, memo) for y in x._list ()]))
    if isinstance (x, VDict):
        n = keep (x._new ())
        if isinstance (x, VDefaultDict): picklable (x.default_factory)
        if x.gen is not None:
            g = x.gen
            n.gen = Gen (transfer (g.K, memo), g.present, transfer (g.value, memo), g.other, g.total)
            n.d, n.entries = None, []
            return n
        for k, v in x._pairs (): n[transfer (k, memo)] = transfer (v, memo)
        return n
    if isinstance (x, types.FunctionType): return picklable (x)
    if isinstance (x, dict): return keep ({transfer (k, memo): transfer (v, memo) for k, v in x.items ()})
    r = run ('save', x.__reduce_ex__, 4)
    if isinstance (r, str): return x
    f, args, state = r[0], r[1], r[2] if len (r) > 2 else None
    if len (r) > 3 and any (y is not None for y in r[3:]): raise Unsupported ('reduce with items')
    f = picklable (f)
    args = tuple (transfer (y, memo) if not isinstance (y, type) else y for y in args)
    v = keep (run ('load', f, *args))
    if state is not None:
        state = transfer (state, memo)
        if hasattr (v, '__setstate__'): run ('load', v.__setstate__, state)
        else:
            d, s = state if isinstance (state, tuple) and len (state) == 2 else (state, None)
            for part in (d, s):
                if part is not None:
                    for k, y in (part.items () if isinstance (part, dict) else part._pairs ()): setattr (v, k, y)
    return v
def picklable (f):
    if isinstance (f, types.FunctionType) and ('<lambda>' in f.__qualname__ or '<locals>' in f.__qualname__): prove (False, 'can be saved')
    return f

@harness ('button in another process', functions=FUN, covers=['end'], seconds=100)
def h2 ():
    p = process ()
    n, m = SymStr (name='n'), SymStr (name='m')
    x, cls, kw, a = create (n)
    p.preserved ()
    attributes (x, cls, kw, a, 'created')
    def go ():
        """ saving happens in one process, loading in the other """
        r = run ('save', x.__reduce_ex__, 4)
        p = process ()
        class Saved:
            def __reduce_ex__ (self, p): return r
        y = transfer (Saved ())
        p.preserved ()
        return y, p
    y, p = go ()
    nameIs (y, n, 'in another process: the same name')
    attributes (y, cls, kw, a, 'in another process')
    from lulua.keyboard import Button
    z = run ('create a button', Button, m)
    p.preserved ()
    prove (tobool (run ('==', lambda: y == z)) == (n.term == m.term), 'in another process: equal exactly if the names are')
    prove (z3.Implies (n.term == m.term, sameHash (hashOf (y), hashOf (z))), 'in another process: equal buttons hash alike')
    cover ('end')

@harness ('combinations', functions=['layout.ButtonCombination.__init__', 'layout.ButtonCombination.__eq__', 'layout.ButtonCombination.__hash__', 'layout.ButtonCombination.__getstate__', 'layout.ButtonCombination.__setstate__'], covers=['end'])
def h3 ():
    from lulua.layout import ButtonCombination
    s = [ButtonSet (name='set') for _ in range (4)]
    a, b = run ('ButtonCombination', ButtonCombination, s[0], s[1]), run ('ButtonCombination', ButtonCombination, s[2], s[3])
    same_ = z3.And (s[0].term == s[2].term, s[1].term == s[3].term)
    prove (tobool (run ('==', lambda: a == b)) == same_, 'combinations are equal exactly if both sets are')
    prove (tobool (run ('!=', lambda: a != b)) == z3.Not (same_), 'combinations differ exactly if a set does')
    prove (z3.Implies (same_, sameHash (hashOf (a), hashOf (b))), 'equal combinations hash alike')
    p = transfer (a)
    prove (z3.And (symEq (p.modifier, ButtonSet (image (s[0].term))), symEq (p.buttons, ButtonSet (image (s[1].term)))), 'in another process: the same buttons')
    q = run ('ButtonCombination', ButtonCombination, ButtonSet (image (s[0].term)), ButtonSet (image (s[1].term)))
    prove (tobool (run ('==', lambda: p == q)), 'in another process: equal to the combination of the same buttons')
    prove (sameHash (hashOf (p), hashOf (q)), 'in another process: equal combinations hash alike')
    cover ('end')

from .c08 import NAMES, arbitrary, look
del HARNESSES[-len (NAMES):]
def saved (cn):
    import lulua.stats as st
    w = StubWriter (StubLayout (StubKeyboard ()))
    names = NAMES[cn]
    keys = {n: Int ('L', 1) if cn == 'RunlenStats' else Key (name=n) for n in names}
    o = run (cn, getattr (st, cn), w)
    cs = arbitrary (o, names, keys)
    if cn == 'TriadStats': o._ignored = None
    start = {k: (d.gen.present, d.gen.value, d.gen.K, type (d)) for k, d in cs.items ()}
    p = transfer (o)
    for (n, k) in cs:
        pr, v, K, ty = start[n, k]
        d = look (p, n, k)
        if not isinstance (d, VDict) or d.gen is None: raise Unsupported ('table replaced')
        prove (And (tobool (d.gen.present) == tobool (pr), eq (d.gen.value, v), symEq (d.gen.K, transfer (K))), f'{n}: the same counts under the same keys')
        prove (isinstance (d, VDefaultDict) == (ty is VDefaultDict), f'{n}: the same kind of table')
    prove (type (p) is type (o), 'the same kind of statistics')
    cover ('end')
for cn in NAMES:
    harness (f'saved {cn}', functions=[f'stats.{cn}.__init__'], covers=['end']) (lambda cn=cn: saved (cn))

# -- a few creations from the real tables, whatever they look like ------------------------
def classState ():
    """ state of the classes of the module that a new process would not have """
    import lulua.keyboard as m
    out = []
    for c in list (vars (m).values ()):
        if isinstance (c, type) and c.__module__ == m.__name__:
            for n, v in list (vars (c).items ()):
                if isinstance (v, (VDict, VList, VSet)) or isinstance (v, (int, SymNum)) and not n.startswith ('__') and not isinstance (v, bool): out.append ((c, n, v))
    for n, v in list (vars (m).items ()):
        if isinstance (v, (VDict, VList, VSet)): out.append ((m, n, v))
    return out
FRESH = []
def newProcess ():
    if not FRESH: FRESH.extend ((c, n, v.copy () if hasattr (v, 'copy') else v) for c, n, v in classState ())
    for c, n, v in FRESH: setattr (c, n, v.copy () if hasattr (v, 'copy') else v)
@harness ('a few buttons', functions=FUN, mode='unroll', unroll=3, refute=True, bound='3 buttons in one process, 2 in another', seconds=60)
def h5 ():
    import lulua.keyboard
    newProcess ()
    try:
        names = [SymStr (name='n') for _ in range (3)]
        bs = [create (n, i > 0) for i, n in enumerate (names)]
        for (x, *_), n in zip (bs, names): nameIs (x, n, 'a button has the name it was created with')
        for i in range (3):
            for j in range (i):
                x, y = bs[i][0], bs[j][0]
                same_ = names[i].term == names[j].term
                prove (tobool (run ('==', lambda: x == y)) == same_, 'buttons are equal exactly if their names are')
                prove (tobool (run ('!=', lambda: x != y)) == z3.Not (same_), 'buttons differ exactly if their names do')
                prove (z3.Implies (same_, sameHash (hashOf (x), hashOf (y))), 'equal buttons hash alike')
        x, cls, kw, a = bs[0]
        r = run ('save', x.__reduce_ex__, 4)
        newProcess ()
        class Saved:
            def __reduce_ex__ (self, p): return r
        m = SymStr (name='m')
        z = run ('create a button', lulua.keyboard.Button, m)
        y = transfer (Saved ())
        nameIs (y, names[0], 'in another process: the same name')
        attributes (y, cls, kw, a, 'in another process')
        prove (tobool (run ('==', lambda: y == z)) == (names[0].term == m.term), 'in another process: equal exactly if the names are')
        prove (z3.Implies (names[0].term == m.term, sameHash (hashOf (y), hashOf (z))), 'in another process: equal buttons hash alike')
    finally:
        newProcess ()
