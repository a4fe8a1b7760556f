"""Engine containers: same observable contract as list/dict/set/frozenset, but keys and elements may be symbolic
(equality decided by their own __eq__, forking the path) and contents may be partly abstract (after a loop was cut)."""
import z3
from .core import *
from . import core

class _Stop:
    def __repr__ (self): return 'STOP'
STOP = _Stop ()
class _Skip:
    def __repr__ (self): return 'SKIP'
SKIP = _Skip ()     # an iterator over unknown data has moved on without a value (loops then continue)

class Poison:
    """ value the engine knows nothing about: using it ends the proof attempt as undecided """
    def _no (self, *a, **k): raise Unsupported ('use of a value that was lost at a loop head')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __len__ = __iter__ = __getitem__ = __call__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __contains__ = __next__ = __iadd__ = __setitem__ = __str__ = __format__ = _no
    __enter__ = __exit__ = __index__ = __int__ = __neg__ = __abs__ = __truediv__ = _no
    def __getattr__ (self, n):
        if n.startswith ('__') or n.startswith ('vcx'): raise AttributeError (n)
        self._no ()
    def __repr__ (self): return '<poison>'
POISON = Poison ()

class AbsSeq:
    """ abstract finite sequence of unknown length; elem (i) gives the element at index term i (None: unknown) """
    count = 0
    def __init__ (self, name='seq', elem=None, n=None):
        self.name = name
        self.elem = elem
        if n is None:
            n = CTX.fresh ('len_' + name, z3.IntSort ())
            CTX.assume (n >= 0)
        self.n = n
    def __repr__ (self): return f'<{self.name}…>'

def hashable (k):
    """ concrete and hashable? """
    try:
        hash (k)
        return True
    except Unsupported:
        return False
    except TypeError:
        return False

def eqv (a, b):
    """ python's identity-or-equality, forking """
    if a is b: return True
    r = a == b
    if r is NotImplemented: return False
    return bool (r)

class VList:
    vcx_container = 'list'
    def __init__ (self, items=(), prefix=None):
        self.items = list (items)
        self.prefix = prefix
    def _whole (self):
        if self.prefix is not None: raise Unsupported ('element access to a list with unknown contents')
        return self.items
    def __repr__ (self): return ('[' + (repr (self.prefix) + ', ' if self.prefix else '') + ', '.join (map (repr, self.items)) + ']')
    def vcx_len (self):
        if self.prefix is None: return len (self.items)
        return SymNum (z3.simplify (self.prefix.n + len (self.items)))
    def __len__ (self): return len (self._whole ())
    def __bool__ (self):
        if self.items: return True
        return False if self.prefix is None else CTX.branch (self.prefix.n > 0)
    def __iter__ (self):
        self._whole ()
        i = 0
        while i < len (self.items):
            yield self.items[i]
            i += 1
    def __reversed__ (self): return iter (self._whole ()[::-1])
    def _idx (self, i):
        if isinstance (i, SymNum):
            # fork over the positions
            n = len (self._whole ())
            for k in range (n):
                if CTX.branch (i.t == k): return k
                if CTX.branch (i.t == k-n): return k-n
            raise IndexError ('list index out of range')
        return i
    def __getitem__ (self, i):
        if isinstance (i, slice):
            if self.prefix is not None:
                if i.start is None and i.stop is None and i.step is None: return VList (self.items, self.prefix)
                raise Unsupported ('slice of a list with unknown contents')
            return VList (self.items[slice (*(int (x) if isinstance (x, SymNum) else x for x in (i.start, i.stop, i.step)))])
        if self.prefix is not None and isinstance (i, int) and i < 0 and -i <= len (self.items): return self.items[i]
        if self.prefix is not None and self.prefix.elem is not None and not self.items:
            t = num (i)
            if CTX.branch (z3.And (t >= 0, t < self.prefix.n)): return self.prefix.elem (t)
            if CTX.branch (z3.And (t < 0, t >= -self.prefix.n)): return self.prefix.elem (t + self.prefix.n)
            raise IndexError ('list index out of range')
        return self._whole ()[self._idx (i)]
    def __setitem__ (self, i, v):
        if isinstance (i, slice):
            self._whole ()[i] = list (v)
        else:
            if self.prefix is not None and isinstance (i, int) and i < 0 and -i <= len (self.items): self.items[i] = v
            else: self._whole ()[self._idx (i)] = v
    def __delitem__ (self, i): del self._whole ()[i if isinstance (i, slice) else self._idx (i)]
    def append (self, x): self.items.append (x)
    def extend (self, xs):
        from .models import it
        for x in it (xs): self.items.append (x)
    def insert (self, i, x): self._whole ().insert (i, x)
    def pop (self, i=-1):
        if self.prefix is not None and i == -1 and self.items: return self.items.pop ()
        return self._whole ().pop (self._idx (i))
    def clear (self): self.items[:] = []; self.prefix = None
    def copy (self): return VList (self.items, self.prefix)
    __copy__ = copy
    def __deepcopy__ (self, memo):
        import copy
        return VList ([copy.deepcopy (x, memo) for x in self.items], self.prefix)
    def index (self, x, *a):
        for i, y in enumerate (self._whole ()):
            if eqv (y, x): return i
        raise ValueError (f'{x!r} is not in list')
    def count (self, x): return sum (1 for y in self._whole () if eqv (y, x))
    def remove (self, x): del self._whole ()[self.index (x)]
    def reverse (self): self._whole ().reverse ()
    def sort (self, key=None, reverse=False):
        from .models import vsorted
        self.items = vsorted (self._whole (), key=key, reverse=reverse).items
    def __add__ (self, o):
        if isinstance (o, VList):
            if o.prefix is not None:
                if not self.items and self.prefix is None: return VList (o.items, o.prefix)
                raise Unsupported ('concatenation of unknown lists')
            return VList (self.items + o.items, self.prefix)
        if isinstance (o, list): return VList (self.items + o, self.prefix)
        return NotImplemented
    def __radd__ (self, o): return VList (o + self._whole ()) if isinstance (o, list) else NotImplemented
    def __iadd__ (self, o):
        self.extend (o)
        return self
    def __mul__ (self, n): return VList (self._whole () * int (n))
    __rmul__ = __mul__
    def __eq__ (self, o):
        if isinstance (o, list): o = VList (o)
        if not isinstance (o, VList): return NotImplemented
        if self.prefix is not o.prefix: raise Unsupported ('comparison of unknown lists')
        return len (self.items) == len (o.items) and all (eqv (a, b) for a, b in zip (self.items, o.items))
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else not r
    def __lt__ (self, o): return tuple (self._whole ()) < tuple (o)
    def __contains__ (self, x): return any (eqv (x, y) for y in self._whole ())
    __hash__ = None

class Gen:
    """ generic-key abstraction of a map: only what is stored under the arbitrary key K is tracked; anything may be
    stored under other keys (other () gives an arbitrary value) """
    def __init__ (self, K, present, value, other, total=False):
        self.K, self.present, self.value, self.other = K, present, value, other
        self.total = total      # every other key is present

class VDict:
    vcx_container = 'dict'
    def __init__ (self, *args, **kw):
        self.d = {}         # concrete keys; None once a symbolic key was stored
        self.entries = None
        self.gen = None
        if args: self._load (args[0])
        for k, v in kw.items (): self[k] = v
        if CTX.newDict is not None and type (self) is VDict and not args and not kw: CTX.newDict (self)
    def _load (self, x):
        from .models import it
        if isinstance (x, VDict):
            if x.gen is not None:
                self.gen = Gen (x.gen.K, x.gen.present, x.gen.value, x.gen.other, x.gen.total)
                self.entries = [list (e) for e in x.entries] if x.entries is not None else None
                self.d = dict (x.d) if x.d is not None else None
                return
            for k, v in x._pairs (): self[k] = v
        elif isinstance (x, dict):
            for k, v in x.items (): self[k] = v
        elif hasattr (x, 'keys') and not hasattr (x, 'vcx_container'):
            for k in x.keys (): self[k] = x[k]
        else:
            for k, v in it (x): self[k] = v
    def _pairs (self):
        return list (self.d.items ()) if self.d is not None else [tuple (e) for e in self.entries]
    def _symbolic (self):
        if self.entries is None:
            self.entries = [[k, v] for k, v in self.d.items ()]
            self.d = None
    def _find (self, k):
        """ → entry list [k, v] or None; generic key: returns the Gen """
        if self.gen is not None:
            if eqv (self.gen.K, k): return self.gen
            self._symbolic ()
            for e in self.entries:
                if eqv (e[0], k): return e
            # unknown other key: arbitrary, but fixed from now on
            if self.gen.total or CTX.branch (CTX.fresh ('has', z3.BoolSort ())):
                e = [k, self.gen.other ()]
                self.entries.append (e)
                return e
            e = [k, ABSENT]
            self.entries.append (e)
            return e
        if self.d is not None and hashable (k):
            return [k, self.d[k]] if k in self.d else None
        for e in (self.entries if self.d is None else [[a, b] for a, b in self.d.items ()]):
            if eqv (e[0], k): return e
        return None
    def vcx_has (self, k):
        e = self._find (k)
        if isinstance (e, Gen): return e.present
        return e is not None and e[1] is not ABSENT
    def __contains__ (self, k): return bool (self.vcx_has (k))
    def __missing__ (self, k): raise KeyError (k)
    def __getitem__ (self, k):
        e = self._find (k)
        if isinstance (e, Gen):
            if e.present if isinstance (e.present, bool) else bool (e.present): return e.value
            return self.__missing__ (k)
        if e is None or e[1] is ABSENT: return self.__missing__ (k)
        return e[1]
    def __setitem__ (self, k, v):
        if self.gen is not None:
            e = self._find (k)
            if isinstance (e, Gen):
                e.present = True
                e.value = v
            else: e[1] = v
            return
        if self.d is not None:
            if hashable (k):
                self.d[k] = v
                return
            self._symbolic ()
        for e in self.entries:
            if eqv (e[0], k):
                e[1] = v
                return
        self.entries.append ([k, v])
    def __delitem__ (self, k):
        if self.gen is not None:
            e = self._find (k)
            if isinstance (e, Gen):
                if not bool (e.present): raise KeyError (k)
                e.present = False
            else:
                if e[1] is ABSENT: raise KeyError (k)
                e[1] = ABSENT
            return
        if self.d is not None and hashable (k):
            del self.d[k]
            return
        self._symbolic ()
        for i, e in enumerate (self.entries):
            if eqv (e[0], k):
                del self.entries[i]
                return
        raise KeyError (k)
    def get (self, k, default=None):
        e = self._find (k)
        if isinstance (e, Gen): return e.value if bool (e.present) else default
        return default if e is None or e[1] is ABSENT else e[1]
    def setdefault (self, k, default=None):
        if k in self: return self[k]
        self[k] = default
        return default
    def pop (self, k, *a):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if a: return a[0]
        raise KeyError (k)
    def update (self, *a, **kw):
        from .models import it
        if a:
            x = a[0]
            if isinstance (x, VDict):
                for k, v in it (x.items ()): self[k] = v
            elif isinstance (x, dict):
                for k, v in x.items (): self[k] = v
            else:
                for k, v in it (x): self[k] = v
        for k, v in kw.items (): self[k] = v
    def _all (self):
        if self.gen is not None: raise Unsupported ('enumeration of a map with unknown contents')
        return self._pairs ()
    def items (self): return DictView (self, lambda e: e)
    def keys (self): return DictView (self, lambda e: e[0])
    def values (self): return DictView (self, lambda e: e[1])
    def __iter__ (self): return iter ([k for k, v in self._all ()])
    def vcx_len (self): return len (self._all ())
    def __len__ (self): return len (self._all ())
    def __bool__ (self):
        if self.gen is None: return len (self) > 0
        if CTX.branch (tobool (self.gen.present)): return True
        # other entries: either way
        CTX.abstract = True
        return bool (CTX.choose (2))
    def clear (self):
        self.d, self.entries, self.gen = {}, None, None
    def _new (self): return VDict ()
    def copy (self):
        n = self._new ()
        n._load (self)
        return n
    __copy__ = copy
    def __deepcopy__ (self, memo):
        import copy
        n = self._new ()
        if self.gen is not None: raise Unsupported ('deepcopy of an unknown map')
        for k, v in self._pairs (): n[copy.deepcopy (k, memo)] = copy.deepcopy (v, memo)
        return n
    def __eq__ (self, o):
        if isinstance (o, dict): o = VDict (o)
        if not isinstance (o, VDict): return NotImplemented
        if self.gen is not None or o.gen is not None: raise Unsupported ('comparison of unknown maps')
        if len (self) != len (o): return False
        for k, v in self._pairs ():
            if not o.vcx_has (k) or not eqv (o[k], v): return False
        return True
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else not r
    __hash__ = None
    def __repr__ (self):
        if self.gen is not None: return f'{{{self.gen.K!r}: {self.gen.present!r} {self.gen.value!r}, …}}'
        return '{' + ', '.join (f'{k!r}: {v!r}' for k, v in self._pairs ()) + '}'
    @classmethod
    def fromkeys (cls, ks, v=None):
        from .models import it
        n = cls ()
        for k in it (ks): n[k] = v
        return n

def rawDict ():
    """ table behind a set (not one the code made) """
    h, CTX.newDict = CTX.newDict, None
    try: return VDict ()
    finally: CTX.newDict = h

class _Absent:
    def __repr__ (self): return 'ABSENT'
ABSENT = _Absent ()

class DictView:
    """ items/keys/values """
    def __init__ (self, d, f): self.dict, self.f = d, f
    def __iter__ (self): return iter ([self.f (e) for e in self.dict._all ()])
    def __len__ (self): return len (self.dict)
    def vcx_len (self): return self.dict.vcx_len ()
    def __contains__ (self, x):
        return any (eqv (self.f (e), x) for e in self.dict._all ())
    def __eq__ (self, o): return VSet (self) == VSet (o)
    def vcx_iter (self):
        if self.dict.gen is None:
            from .models import VSeqIter
            return VSeqIter ([self.f (e) for e in self.dict._all ()])
        return GenIter (self.dict, self.f)

class GenIter:
    """ iteration over a map of unknown contents: every other entry is arbitrary, the generic key is met exactly once if
    it is there.  Keys met are pairwise distinct (only the generic key is tracked). """
    vcx_fields = ('pos', 'n', 'seen')
    vcx_abstract = True
    def __init__ (self, d, f):
        self.d, self.f = d, f
        self.pos = 0
        self.n = Int ('size', 0)
        self.seen = False
        self.present, self.value = d.gen.present, d.gen.value
    def vcx_inv (self):
        return [num (self.pos) >= 0, num (self.pos) <= num (self.n), z3.Implies (tobool (self.seen), tobool (self.present))]
    def vnext (self):
        g = self.d.gen
        if num (self.pos) is not None and CTX.branch (z3.simplify (num (self.pos) >= num (self.n))):
            # exhausted: the generic key was met if present
            CTX.assume (z3.Implies (tobool (self.present), tobool (self.seen)))
            if CTX.check () == z3.unsat: raise PathEnd ()
            return STOP
        self.pos = self.pos + 1
        here = CTX.fresh ('isK', z3.BoolSort ())
        CTX.assume (z3.Implies (here, z3.And (tobool (self.present), z3.Not (tobool (self.seen)))))
        if CTX.branch (here):
            self.seen = True
            return self.f ((g.K, self.value))
        k = CTX.otherKey (g.K)
        CTX.assume (z3.Not (symEq (k, g.K)))
        if CTX.check () == z3.unsat: raise PathEnd ()
        return self.f ((k, g.other ()))

class VDefaultDict (VDict):
    def __init__ (self, factory=None, *a, **kw):
        self.default_factory = factory
        VDict.__init__ (self, *a, **kw)
        if CTX.dictHook is not None and not a and not kw: CTX.dictHook (self)
    def __missing__ (self, k):
        if self.default_factory is None: raise KeyError (k)
        v = self.default_factory ()
        self[k] = v
        return v
    def _new (self): return VDefaultDict (self.default_factory)
    @property
    def vcx_default (self): return self.default_factory

class VSet:
    vcx_container = 'set'
    frozen = False
    def __init__ (self, items=()):
        from .models import it
        self.m = rawDict ()
        for x in it (items): self.m[x] = True
    @classmethod
    def _mk (cls, xs):
        s = cls.__new__ (cls)
        s.m = rawDict ()
        for x in xs: s.m[x] = True
        return s
    def _list (self): return [k for k, v in self.m._pairs () if v is True]
    def __iter__ (self): return iter (self._list ())
    def __len__ (self): return len (self._list ())
    def vcx_len (self): return len (self._list ())
    def __bool__ (self): return bool (self._list ())
    def __contains__ (self, x): return x in self.m
    def __repr__ (self): return '{' + ', '.join (map (repr, self._list ())) + '}'
    def _other (self, o):
        from .models import it
        return VSet (o) if not isinstance (o, VSet) else o
    def issubset (self, o): o = self._other (o); return all (x in o for x in self)
    def issuperset (self, o): return all (x in self for x in self._other (o))
    def isdisjoint (self, o): return not any (x in self for x in self._other (o))
    def union (self, *os):
        r = type (self)._mk (self._list ())
        for o in os:
            for x in self._other (o): r.m[x] = True
        return r
    def intersection (self, *os):
        r = self._list ()
        for o in os:
            o = self._other (o)
            r = [x for x in r if x in o]
        return type (self)._mk (r)
    def difference (self, *os):
        r = self._list ()
        for o in os:
            o = self._other (o)
            r = [x for x in r if x not in o]
        return type (self)._mk (r)
    def symmetric_difference (self, o):
        o = self._other (o)
        return type (self)._mk ([x for x in self if x not in o] + [x for x in o if x not in self])
    def _isset (self, o): return isinstance (o, (VSet, set, frozenset))
    def __or__ (self, o): return self.union (o) if self._isset (o) else NotImplemented
    __ror__ = __or__
    def __and__ (self, o): return self.intersection (o) if self._isset (o) else NotImplemented
    __rand__ = __and__
    def __sub__ (self, o): return self.difference (o) if self._isset (o) else NotImplemented
    def __rsub__ (self, o): return VSet (o).difference (self) if self._isset (o) else NotImplemented
    def __xor__ (self, o): return self.symmetric_difference (o) if self._isset (o) else NotImplemented
    def __le__ (self, o): return self.issubset (o)
    def __ge__ (self, o): return self.issuperset (o)
    def __lt__ (self, o): return self.issubset (o) and len (self) < len (o)
    def __gt__ (self, o): return self.issuperset (o) and len (self) > len (o)
    def __eq__ (self, o):
        if not self._isset (o): return NotImplemented
        o = self._other (o)
        return len (self) == len (o) and all (x in o for x in self)
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else not r
    def copy (self): return type (self)._mk (self._list ())
    __copy__ = copy
    def __deepcopy__ (self, memo):
        import copy
        return type (self)._mk ([copy.deepcopy (x, memo) for x in self._list ()])
    __hash__ = None
    def add (self, x): self.m[x] = True
    def discard (self, x):
        if x in self.m: del self.m[x]
    def remove (self, x): del self.m[x]
    def update (self, *os):
        for o in os:
            for x in self._other (o): self.m[x] = True
    def __ior__ (self, o): self.update (o); return self
    def clear (self): self.m = rawDict ()
    def pop (self):
        l = self._list ()
        if not l: raise KeyError ('pop from an empty set')
        del self.m[l[0]]
        return l[0]

class VFrozenSet (VSet):
    frozen = True
    def __hash__ (self):
        return hash (frozenset (self._list ()))
    add = discard = remove = update = clear = pop = __ior__ = None
    def copy (self): return self
    __copy__ = copy
