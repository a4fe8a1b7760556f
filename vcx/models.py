"""Hooks called by the instrumented code, and engine versions of builtins and library functions."""
import builtins as B, itertools, collections, operator, io, types, unicodedata as _ud, copy as _copy
from enum import Enum
import z3
from .core import *
from .values import *
from .strings import *
from . import core, loops

# -- iteration -------------------------------------------------------------
class VIter:
    """ base of engine iterators; vnext () → value or STOP """
    vcx_fields = ()
    vcx_abstract = False
    def __iter__ (self): return self
    def __next__ (self):
        if self.vcx_abstract and CTX.mode != 'unroll' and not CTX.allowNext: raise Unsupported ('native iteration over an abstract sequence')
        v = self.vnext ()
        if v is STOP: raise StopIteration
        if v is SKIP: raise Unsupported ('native iteration over an abstract sequence')
        return v
    def vcx_iter (self): return self

class VSeqIter (VIter):
    """ over a python list/tuple, by index """
    vcx_fields = ('pos',)
    def __init__ (self, seq): self.seq, self.pos = seq, 0
    @property
    def cuttable (self): return isinstance (self.seq, range)
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= len (self.seq)]
    def vnext (self):
        if self.pos >= len (self.seq): return STOP
        self.pos = self.pos + 1
        if isinstance (self.pos, SymNum):
            if not isinstance (self.seq, range): raise Unsupported ('position in a sequence')
            return self.seq.start + (self.pos - 1) * self.seq.step
        return self.seq[self.pos-1]
class VListIter (VIter):
    vcx_fields = ('pos', 'lst')
    def __init__ (self, lst): self.lst, self.pos = lst, 0
    def vnext (self):
        if self.pos >= len (self.lst.items): return STOP
        self.pos += 1
        return self.lst.items[self.pos-1]
class NativeIter (VIter):
    vcx_fields = ('itr',)
    def __init__ (self, itr): self.itr = itr
    def vnext (self):
        try: return B.next (self.itr)
        except StopIteration: return STOP
class AbsIter (VIter):
    """ over an abstract sequence """
    vcx_fields = ('pos',)
    vcx_abstract = True
    def __init__ (self, seq): self.seq, self.pos = seq, 0
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= self.seq.n]
    def vnext (self):
        p = num (self.pos)
        if CTX.branch (z3.simplify (p >= self.seq.n)): return STOP
        if CTX.mode == 'unroll' and z3.is_int_value (z3.simplify (p)) and z3.simplify (p).as_long () >= CTX.unroll: raise PathEnd ()
        self.pos = self.pos + 1
        if self.seq.elem is None: raise Unsupported ('element of a list with unknown contents')
        return self.seq.elem (z3.simplify (p))
class RangeIter (VIter):
    vcx_fields = ('pos',)
    vcx_abstract = True
    def __init__ (self, lo, hi): self.pos, self.hi = lo, hi
    def vnext (self):
        if not bool (self.pos < self.hi): return STOP
        v = self.pos
        if CTX.mode == 'unroll':
            t = z3.simplify (num (v))
            if z3.is_int_value (t) and t.as_long () >= CTX.unroll: raise PathEnd ()
        self.pos = self.pos + 1
        return v
class MapIter (VIter):
    vcx_fields = ('srcs',)
    def __init__ (self, f, *xs):
        self.f, self.srcs = f, tuple (viter (x) for x in xs)
        self.vcx_abstract = B.any (isAbs (s) for s in self.srcs)
    def vnext (self):
        vs = []
        for s in self.srcs:
            v = s.vnext ()
            if v is STOP: return STOP
            if v is SKIP:
                if len (self.srcs) > 1: raise Unsupported ('zip of flattened sequences')
                return SKIP
            vs.append (v)
        return self.f (*vs)
class ZipIter (MapIter):
    def __init__ (self, *xs): MapIter.__init__ (self, lambda *v: v, *xs)
    def vnext (self): return STOP if not self.srcs else MapIter.vnext (self)
class FilterIter (VIter):
    vcx_fields = ('src',)
    def __init__ (self, f, x):
        self.f, self.src = f, viter (x)
        self.vcx_abstract = isAbs (self.src)
    def vnext (self):
        if self.vcx_abstract and CTX.mode != 'unroll':
            v = self.src.vnext ()
            if v is STOP or v is SKIP: return v
            return v if bool (self.f (v) if self.f is not None else v) else SKIP
        while True:
            v = self.src.vnext ()
            if v is STOP: return STOP
            if (self.f (v) if self.f is not None else v): return v
class EnumIter (VIter):
    vcx_fields = ('src', 'i')
    def __init__ (self, x, start=0):
        self.src, self.i = viter (x), start
        self.vcx_abstract = isAbs (self.src)
    def vnext (self):
        v = self.src.vnext ()
        if v is STOP or v is SKIP: return v
        self.i = self.i + 1
        return (self.i - 1, v)
class ChainIter (VIter):
    vcx_fields = ('outer', 'cur')
    staged = False
    def __init__ (self, outer):
        self.outer, self.cur = viter (outer), None
    def stages (self):
        """ a loop over a chain of known sequences is a loop over each of them in turn """
        o = self.outer
        if not self.staged and self.cur is None and isinstance (o, (VSeqIter, VListIter)) and isinstance (o.pos, int) and o.pos == 0 and isAbs (self):
            self.staged = True
            return B.list (o.seq if isinstance (o, VSeqIter) else o.lst.items)
        return None
    @property
    def vcx_abstract (self): return isAbs (self.outer) or (self.cur is not None and isAbs (self.cur)) or self._any ()
    def _any (self):
        o = self.outer
        seq = o.lst.items if isinstance (o, VListIter) else getattr (o, 'seq', None)
        return isinstance (o, (VSeqIter, VListIter)) and isinstance (o.pos, int) and B.any (absIterable (x) for x in seq[o.pos:])
    def vnext (self):
        while True:
            if self.cur is None:
                x = self.outer.vnext ()
                if x is STOP: return STOP
                self.cur = viter (x)
            if self.staged: raise Unsupported ('chain used by two loops')
            v = self.cur.vnext ()
            if v is not STOP: return v
            self.cur = None

class GenComp (VIter):
    """ generator expression or comprehension over an abstract sequence """
    vcx_fields = ('src',)
    vcx_abstract = True
    def __init__ (self, f, src): self.f, self.src = f, src
    def vnext (self):
        v = self.src.vnext ()
        if v is STOP or v is SKIP: return v
        r = B.list (self.f ([v]))
        if len (r) > 1: raise Unsupported ('nested comprehension over an abstract sequence')
        return r[0] if r else SKIP
class CallIter (VIter):
    """ iter (f, sentinel) """
    vcx_fields = ('f',)
    vcx_abstract = True
    def __init__ (self, f, sentinel): self.f, self.sentinel = f, sentinel
    def vnext (self):
        v = self.f ()
        return STOP if bool (eqv (v, self.sentinel)) else v
class FlatIter (VIter):
    """ over the concatenation of unknown sequences, each a function of its place in an unknown sequence """
    vcx_fields = ('i', 'j')
    vcx_abstract = True
    def __init__ (self, seq): self.seq, self.i, self.j = seq, 0, 0
    def vcx_inv (self): return [num (self.i) >= 0, num (self.i) <= self.seq.n, num (self.j) >= 0]
    def vnext (self):
        i = num (self.i)
        if CTX.branch (z3.simplify (i >= self.seq.n)): return STOP
        s = self.seq.elem (z3.simplify (i))
        s = absSeqOf (s)
        if s is None: raise Unsupported ('concatenation of unknown sequences of known length')
        if CTX.branch (num (self.j) >= s.n):
            self.i, self.j = self.i + 1, 0
            return SKIP
        self.j = self.j + 1
        return s.elem (z3.simplify (num (self.j) - 1))
def vfromiter (xs):
    if CTX.mode != 'unroll' and absIterable (xs):
        s = absSeqOf (xs)
        if s is not None: return FlatIter (s)
    return ChainIter (xs)

def absIterable (x):
    if isinstance (x, AbsSeq): return True
    if isinstance (x, VList): return x.prefix is not None
    if isinstance (x, DictView): return x.dict.gen is not None
    if isinstance (x, VDict): return x.gen is not None
    if isinstance (x, Rope): return not z3.is_int_value (x.lent ())
    if hasattr (B.type (x), 'vcx_iter') and not isinstance (x, VIter): return isAbs (x.vcx_iter ())
    return isAbs (x)

def isAbs (i): return bool (getattr (i, 'vcx_abstract', False))

def viter (x):
    """ iter (x) as an engine iterator """
    if isinstance (x, VIter): return x
    if hasattr (B.type (x), 'vcx_iter'): return x.vcx_iter ()
    if isinstance (x, VList):
        if x.prefix is None: return VListIter (x)
        if x.prefix.elem is not None and not x.items: return AbsIter (x.prefix)
        raise Unsupported ('iteration over a list with unknown contents')
    if isinstance (x, AbsSeq): return AbsIter (x)
    if isinstance (x, VDict): return x.keys ().vcx_iter ()
    if isinstance (x, VSet): return VSeqIter (x._list ())
    if isinstance (x, (tuple, list, str, bytes, range)): return VSeqIter (x)
    if isinstance (x, (RopeIter, GenIter)): return x
    i = B.iter (x)
    return i if isinstance (i, VIter) or hasattr (i, 'vnext') else NativeIter (i)

def consume (i):
    """ iteration whose results are collected outside the heap that loops know: counted, so that a loop of the source which
    is cut meanwhile notices (Activation.again) """
    c = [0]
    CTX.consumers.append (c)
    try:
        while True:
            v = i.vnext ()
            if v is STOP: return
            if v is SKIP: raise Unsupported ('filtered abstract sequence')
            c[0] += 1
            yield v
    finally:
        CTX.consumers[:] = [x for x in CTX.consumers if x is not c]
def isGen (i):
    """ generator of the code under verification """
    return CTX.mode != 'unroll' and isinstance (i, NativeIter) and isinstance (i.itr, types.GeneratorType) and i.itr.gi_frame is not None and 'vcx__' in i.itr.gi_frame.f_globals
def it (x):
    """ native iteration in a comprehension or constructor """
    i = viter (x)
    if isAbs (i) and CTX.mode != 'unroll': raise Unsupported ('comprehension or constructor over an abstract sequence')
    return consume (i)

def absSeqOf (x):
    """ abstract sequence behind an iterable (position 0), or None """
    if isinstance (x, AbsSeq): return x
    if isinstance (x, VList) and x.prefix is not None and not x.items and x.prefix.elem is not None: return x.prefix
    if isinstance (x, AbsIter) and isinstance (x.pos, int) and x.pos == 0: return x.seq
    if isinstance (x, MapIter) and len (x.srcs) >= 1 and isAbs (x):
        ss = [absSeqOf (s) for s in x.srcs]
        if B.any (s is None for s in ss): return None
        n = ss[0].n
        for s in ss[1:]:
            if not must (s.n == n): return None
        return AbsSeq ('map', lambda i: x.f (*(s.elem (i) for s in ss)), n)
    if isinstance (x, EnumIter) and isAbs (x):
        s = absSeqOf (x.src)
        return None if s is None else AbsSeq ('enum', lambda i: (SymNum (i), s.elem (i)), s.n)
    return None

# -- hooks -----------------------------------------------------------------
def mkList (x):
    v = VList (x)
    if CTX.newList is not None and not v.items: CTX.newList (v)
    return v
def mkSet (x): return VSet (x)
def mkDict (pairs):
    d = VDict ()
    for k, v in pairs: d[k] = v
    return d
def mkDict2 (parts):
    d = VDict ()
    for star, k, v in parts:
        if star: d.update (v)
        else: d[k] = v
    return d

def fill (pairs):
    from . import prelude
    return prelude.get ('fill') (pairs)
def comp (kind, outer, f):
    i = viter (outer)
    if isAbs (i) and CTX.mode != 'unroll':
        s = absSeqOf (outer if not isinstance (outer, VIter) else i)
        if kind == 'dict' and CTX.newDict is not None: return fill (GenComp (f, i))
        if kind == 'set' and CTX.setHook is not None:
            r = CTX.setHook (GenComp (f, i))
            if r is not None: return r
        if kind not in ('list', 'gen'): raise Unsupported (f'{kind} comprehension over an abstract sequence')
        if s is None:
            g = GenComp (f, i)
            if kind == 'gen': return g
            from . import prelude
            return prelude.get ('collect') (g)
        def elem (k):
            r = B.list (f ([s.elem (k)]))
            if len (r) != 1: raise Unsupported ('filtered comprehension over an abstract sequence')
            return r[0]
        m = AbsSeq ('comp', elem, s.n)
        return VList ([], m) if kind == 'list' else AbsIter (m)
    def g ():
        while True:
            v = i.vnext ()
            if v is STOP: return
            yield v
    r = f (g ())
    if kind == 'list':
        if isGen (i):
            from . import prelude
            return prelude.get ('collect') (r)
        return VList (r)
    if kind == 'set': return VSet (r)
    if kind == 'dict': return mkDict (r)
    return r

def contains (c, x):
    if hasattr (c, 'vcx_contains'): return c.vcx_contains (x)
    if isinstance (c, VDict): return c.vcx_has (x)
    if isinstance (c, (VList, VSet)): return x in c
    if isinstance (c, (dict, set, frozenset)):
        if hashable (x): return x in c
        return B.any (eqv (k, x) for k in c)
    if isinstance (c, (list, tuple)): return B.any (eqv (y, x) for y in c)
    if isinstance (c, (Rope, SymStr, FStr)) or isinstance (x, (Rope, SymStr, FStr)):
        if isinstance (c, str) and isinstance (x, Rope) and z3.is_int_value (x.lent ()) and x.lent ().as_long () == 1:
            return B.any (bool (x == ch) for ch in c)
        raise Unsupported ('substring test on a symbolic string')
    if isinstance (c, (str, bytes)): return x in c
    if isinstance (c, (VIter, types.GeneratorType)):
        i = viter (c)
        while True:
            v = i.vnext ()
            if v is STOP: return False
            if eqv (v, x): return True
    return x in c

def getitem (o, k):
    if isinstance (o, dict) and not hashable (k):
        for a, b in o.items ():
            if eqv (a, k): return b
        if hasattr (o, '__missing__'): return o.__missing__ (k)
        raise KeyError (k)
    if isinstance (k, SymNum) and isinstance (o, (tuple, list, str, bytes)):
        n = len (o)
        if isinstance (o, (tuple, list)) and n <= 16 and n and B.all (isinstance (x, (int, float, SymNum)) and not isinstance (x, bool) for x in o):
            # numeric table: no need to fork
            if not CTX.branch (z3.And (k.t >= -n, k.t < n)): raise IndexError ('index out of range')
            r = num (o[n-1])
            real = B.any (isReal (num (x)) for x in o)
            cv = lambda x: (z3.ToReal (num (x)) if real and not isReal (num (x)) else num (x))
            r = cv (o[n-1])
            for j in range (n-1):
                r = z3.If (z3.Or (k.t == j, k.t == j-n), cv (o[j]), r)
            return SymNum (z3.simplify (r))
        for j in range (n):
            if CTX.branch (z3.Or (k.t == j, k.t == j-n)): return o[j]
        raise IndexError ('index out of range')
    if isinstance (k, slice) and isinstance (o, (str, bytes)) and B.any (isinstance (x, SymNum) for x in (k.start, k.stop)):
        return Rope ('str' if isinstance (o, str) else 'bytes', [('lit', o)])[k]
    if isinstance (k, slice) and isinstance (o, (tuple, list, str, bytes)):
        k = slice (*(int (x) if isinstance (x, SymNum) else x for x in (k.start, k.stop, k.step)))
    return o[k]

_conv = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}
def fstr (parts):
    if B.any (not isinstance (p, str) and (symPart (p[0]) or symPart (p[2])) for p in parts):
        out = []
        for p in parts:
            if isinstance (p, str): out.append (p)
            elif not symPart (p[0]) and not symPart (p[2]): out.append (format (_conv[p[1]] (p[0]), p[2]))
            elif isinstance (p[0], FStr) and p[1] == -1 and p[2] == '': out += p[0].parts
            else: out.append (p)
        ropes = [p[0] for p in out if not isinstance (p, str)]
        if B.all (isinstance (p, str) or isinstance (p[0], Rope) and p[0].kind == 'str' and p[1] in (-1, 115) and p[2] == '' for p in out) and ropes:
            r = Rope ('str')
            for p in out: r = r + (p if isinstance (p, str) else p[0])
            return r
        return FStr (out)
    return ''.join (p if isinstance (p, str) else format (_conv[p[1]] (p[0]), p[2]) for p in parts)
def symPart (x):
    if isinstance (x, (str, int, float)): return False
    if isinstance (x, (Sym, SymObj, Rope, FStr, SymEnumStr, Poison)): return True
    return not isinstance (x, (B.type (None), Enum, tuple, list, dict)) and (getattr (x, '__vcx_sym__', False) or isinstance (x, (VList, VDict, VSet))) or isinstance (x, (tuple, list)) and isSym (x)
def modstr (a, b):
    if symPart (b) or isinstance (b, tuple) and B.any (map (symPart, b)): return FStr ((a, (b, -1, '')))
    return a % b

def join (sep, xs):
    if not isinstance (sep, (str, bytes, Rope)):
        return sep.join (xs)     # some other object's join (thread, queue, …)
    if isinstance (xs, Rope) and sep in ('', b''): return xs
    if hasattr (xs, 'vcx_join'): return xs.vcx_join (sep)
    if isinstance (xs, VList) and xs.prefix is not None:
        j = getattr (xs.prefix, 'joined', None)
        if j is None or sep not in ('', b''): raise Unsupported ('join of unknown strings')
        r = j
        for x in xs.items: r = r + x
        return r
    i = viter (xs)
    if isAbs (i) and CTX.mode != 'unroll':
        if CTX.joinHook is not None: return CTX.joinHook (sep, i)
        from . import prelude
        r = Rope ('bytes' if isinstance (sep, bytes) else 'str') if isinstance (sep, (str, bytes)) else sep[:0]
        return prelude.get ('join0') (i, r) if sep in ('', b'') else prelude.get ('joinLoop') (sep, i, r)
    if isGen (i):
        from . import prelude
        return join (sep, prelude.get ('collect') (i))
    vals = B.list (consume (i))
    if CTX.joinHook is not None and B.any (isinstance (v, SymObj) for v in vals): return CTX.joinHook (sep, vals)
    if not B.any (isinstance (v, (Rope, SymStr, FStr, SymEnumStr, Poison, SymNum)) for v in vals) and isinstance (sep, (str, bytes)):
        return sep.join (vals)
    if B.any (isinstance (v, FStr) for v in vals) or B.any (isinstance (v, (SymStr,)) for v in vals):
        out = []
        for k, v in enumerate (vals):
            if k and sep: out.append (sep)
            out += [v] if isinstance (v, str) else v.parts if isinstance (v, FStr) else [(v, -1, '')]
        return FStr (out)
    kind = 'bytes' if isinstance (sep, bytes) else 'str'
    r = Rope (kind)
    for k, v in enumerate (vals):
        if k: r = r + sep
        if not isinstance (v, (str, bytes, Rope)): raise TypeError ('sequence item: expected str instance')
        r = r + v
    return r

def mcall (o, m, *args, **kw):
    f = getattr (o, m)
    if isinstance (o, dict) and m in ('get', 'pop', 'setdefault') and args and not hashable (args[0]):
        if m != 'get': raise Unsupported (f'{m} with a symbolic key on a native dict')
        for a, b in o.items ():
            if eqv (a, args[0]): return b
        return args[1] if len (args) > 1 else None
    if isinstance (o, list) and m in ('index', 'count', 'remove') and isSym (args[0]): return getattr (VList (o), m) (*args)
    if isinstance (o, (str, bytes)) and B.any (isinstance (a, (Sym, SymObj, Rope, FStr)) for a in args): raise Unsupported (f'str.{m} with symbolic arguments')
    if isinstance (o, str) and m == 'split': return VList (f (*args, **kw))
    if isinstance (o, (Rope, SymStr)) and CTX.strHook is not None:
        r = CTX.strHook (o, m, args, kw)
        if r is not NotImplemented: return r
    return f (*args, **kw)

# -- builtins --------------------------------------------------------------
class _Type (type):
    """ stand-in for a builtin type: callable, usable with isinstance """
    def __call__ (cls, *a, **k): return cls.make (*a, **k)
    def __instancecheck__ (cls, x): return cls.check (x)
    def __getattr__ (cls, n):
        if n.startswith ('vcx') or n in ('__origin__', '__abstractmethods__'): raise AttributeError (n)
        return getattr (cls.native, n)
    def __eq__ (cls, o): return o is cls or o is cls.native
    def __hash__ (cls): return hash (cls.native)
    def __or__ (cls, o): return cls.native | o
    def __ror__ (cls, o): return o | cls.native
    def __getitem__ (cls, k): return cls.native[k]

class TInt (metaclass=_Type):
    native = int
    @staticmethod
    def make (*a, **k):
        if a and isinstance (a[0], SymNum):
            t = a[0].t
            if not isReal (t): return a[0]
            return SymNum (z3.simplify (z3.If (t >= 0, z3.ToInt (t), -z3.ToInt (-t))))
        if a and isinstance (a[0], SymBool): return a[0]._n ()
        if a and hasattr (a[0], 'vcx_int'): return a[0].vcx_int (*a[1:], **k)
        if a and isinstance (a[0], (Rope, SymStr)): raise Unsupported ('int () of a symbolic string')
        return int (*a, **k)
    @staticmethod
    def check (x): return isinstance (x, (int, SymBool)) or isinstance (x, SymNum) and not isReal (x.t)
class TFloat (metaclass=_Type):
    native = float
    @staticmethod
    def make (*a):
        if a and isinstance (a[0], SymNum): return a[0] if isReal (a[0].t) else SymNum (z3.ToReal (a[0].t))
        return float (*a)
    @staticmethod
    def check (x): return isinstance (x, float) or isinstance (x, SymNum) and isReal (x.t)
class TBool (metaclass=_Type):
    native = bool
    @staticmethod
    def make (*a): return bool (*a)
    @staticmethod
    def check (x): return isinstance (x, (bool, SymBool))
class TStr (metaclass=_Type):
    native = str
    @staticmethod
    def make (*a, **k):
        if a and isinstance (a[0], (Rope, SymStr, SymEnumStr, FStr)): return a[0]
        if a and isinstance (a[0], Sym): return FStr (((a[0], -1, ''),))
        return str (*a, **k)
    @staticmethod
    def check (x): return isinstance (x, str) or isinstance (x, Rope) and x.kind == 'str' or getattr (x, 'vcx_str', False)
class TBytes (metaclass=_Type):
    native = bytes
    @staticmethod
    def make (*a, **k):
        if a and isinstance (a[0], Rope): return a[0]
        return bytes (*a, **k)
    @staticmethod
    def check (x): return isinstance (x, bytes) or isinstance (x, Rope) and x.kind == 'bytes'
class TList (metaclass=_Type):
    native = list
    @staticmethod
    def make (*a):
        if not a: return mkList (())
        x = a[0]
        if isinstance (x, VList): return x.copy ()
        s = absSeqOf (x) if absIterable (x) and CTX.mode != 'unroll' else None
        if s is not None: return VList ([], s)
        if absIterable (x) and CTX.listHook is not None:
            r = CTX.listHook (x)
            if r is not None: return r
        i = viter (x)
        if isGen (i) or isAbs (i) and CTX.newList is not None and CTX.mode != 'unroll':
            from . import prelude
            return prelude.get ('collect') (i)
        return VList (it (i))
    @staticmethod
    def check (x): return isinstance (x, (list, VList))
class TTuple (metaclass=_Type):
    native = tuple
    @staticmethod
    def make (*a):
        if not a: return ()
        if isinstance (a[0], tuple): return tuple (a[0])
        return tuple (it (a[0]))
    @staticmethod
    def check (x): return isinstance (x, tuple)
class TDict (metaclass=_Type):
    native = dict
    @staticmethod
    def make (*a, **k):
        if len (a) == 1 and not k and hasattr (a[0], 'vcx_dict'): return a[0].vcx_dict ()
        if len (a) == 1 and not k and CTX.newDict is not None and CTX.mode != 'unroll' and absIterable (a[0]): return fill (a[0])
        return VDict (*a, **k)
    @staticmethod
    def check (x): return isinstance (x, (dict, VDict))
class TSet (metaclass=_Type):
    native = set
    @staticmethod
    def make (*a):
        if a and absIterable (a[0]) and CTX.setHook is not None:
            r = CTX.setHook (a[0])
            if r is not None: return r
        return VSet (*a)
    @staticmethod
    def check (x): return isinstance (x, set) or isinstance (x, VSet) and not x.frozen
class TFrozenSet (metaclass=_Type):
    native = frozenset
    @staticmethod
    def make (*a):
        if a and absIterable (a[0]) and CTX.setHook is not None:
            r = CTX.setHook (a[0])
            if r is not None: return r
        return VFrozenSet (*a)
    @staticmethod
    def check (x): return isinstance (x, (frozenset, VFrozenSet))

_natives = {int: TInt, float: TFloat, str: TStr, bytes: TBytes, list: TList, dict: TDict, set: TSet, frozenset: TFrozenSet, bool: TBool}
def visinstance (x, c):
    if isinstance (c, tuple): return B.any (visinstance (x, d) for d in c)
    if isinstance (x, Poison): raise Unsupported ('use of a value that was lost at a loop head')
    h = getattr (x, 'vcx_isinstance', None)
    if h is not None:
        r = h (c)
        if r is not None: return r
    c = _natives.get (c, c) if isinstance (c, type) and not isinstance (c, _Type) else c
    if c is VDefaultDict or c is collections.defaultdict: return isinstance (x, (VDefaultDict, collections.defaultdict))
    return isinstance (x, c)

class SymHash (Sym):
    """ some function of what was hashed """
    def __init__ (self, key=None): self.key = key
    def _no (self, *a): raise Unsupported ('use of the hash of a symbolic value')
    __eq__ = __ne__ = __lt__ = __add__ = __index__ = __bool__ = __xor__ = _no
    __hash__ = Sym.__hash__
    def __repr__ (self): return '<hash>'
def vhash (x):
    if not hashable (x): return SymHash (x)
    return hash (x)

def vlen (x):
    if hasattr (x, 'vcx_len'): return x.vcx_len ()
    f = getattr (B.type (x), '__len__', None)
    if f is not None and B.type (x).__module__.startswith ('lulua.'): return f (x)
    return len (x)

class VRange:
    """ range with symbolic bounds (step 1) """
    def __init__ (self, lo, hi): self.lo, self.hi = lo, hi
    vcx_abstract = True
    def vcx_iter (self): return RangeIter (self.lo, self.hi)
    def __iter__ (self): return RangeIter (self.lo, self.hi)
    def vcx_len (self):
        a, b = num (self.lo), num (self.hi)
        return SymNum (z3.simplify (z3.If (b > a, b - a, z3.IntVal (0))))
    def vcx_contains (self, x): return SymBool (z3.And (num (x) >= num (self.lo), num (x) < num (self.hi)))
    def __getitem__ (self, k): return self.lo + k
def vrange (*a):
    if B.any (isinstance (x, SymNum) for x in a):
        if len (a) == 1: return VRange (0, a[0])
        if len (a) == 2: return VRange (a[0], a[1])
        raise Unsupported ('range with step')
    return range (*a)

def vsum (xs, start=0):
    i = viter (xs)
    if isAbs (i) and CTX.mode != 'unroll':
        if CTX.sumHook is not None: return CTX.sumHook (xs, start)
    if isAbs (i) and CTX.mode != 'unroll' or isGen (i):
        from . import prelude
        return prelude.get ('fold') (i, start)
    r = start
    for v in consume (i): r = r + v
    return r

def _minmax (args, key, default, less):
    xs = args[0] if len (args) == 1 else args
    i = viter (xs)
    if isAbs (i) and CTX.mode != 'unroll':
        return absMin (i, key, less)
    best = STOP
    for v in consume (i):
        k = key (v) if key else v
        if best is STOP: best, bk = v, k
        elif not key and isinstance (v, (SymNum, int, float)) and isinstance (best, (SymNum, int, float)) and (isinstance (v, SymNum) or isinstance (best, SymNum)):
            # no fork: if-then-else term
            a, b = core._coerce (num (v), num (best))
            best = SymNum (z3.simplify (z3.If (a < b if less else a > b, a, b)))
            bk = best
        elif bool (k < bk) if less else bool (k > bk): best, bk = v, k
    if best is STOP:
        if default is not STOP: return default
        raise ValueError ('min()/max() arg is an empty sequence')
    return best
def absMin (i, key, less):
    """ min/max over an abstract sequence: the first element whose key is not beaten by that of any other one """
    s = absSeqOf (i)
    if s is None: raise Unsupported ('min over an abstract sequence')
    if not CTX.branch (s.n > 0): raise ValueError ('min()/max() arg is an empty sequence')
    w = CTX.fresh ('argmin', z3.IntSort ())
    CTX.assume (z3.And (w >= 0, w < s.n))
    v = s.elem (w)
    kv = key (v) if key else v
    for j in CTX.genericIndices (s):
        u = s.elem (j)
        ku = key (u) if key else u
        ka, kb = (kv, ku) if isinstance (kv, tuple) and isinstance (ku, tuple) and len (kv) == len (ku) else ((kv,), (ku,))
        r = z3.Not (j < w)
        for a, b in reversed (B.list (zip (ka, kb))):
            a, b = num (a), num (b)
            if a is None or b is None: raise Unsupported ('min over structured keys')
            a, b = core._coerce (a, b)
            if not less: a, b = b, a
            r = z3.Or (a < b, z3.And (a == b, r))
        CTX.assume (z3.Implies (z3.And (j >= 0, j < s.n), r))
    CTX.lastMin = w
    return v
def vmin (*args, key=None, default=STOP): return _minmax (args, key, default, True)
def vmax (*args, key=None, default=STOP): return _minmax (args, key, default, False)

def vsorted (xs, key=None, reverse=False):
    if absIterable (xs) and CTX.sortHook is not None:
        r = CTX.sortHook (xs, key, reverse)
        if r is not None: return r
    if absIterable (xs) and CTX.listHook is not None:
        # the same elements in another order: the specification's sequences promise no order
        r = CTX.listHook (xs)
        if r is not None: return r
    l = B.list (it (xs))
    # stable insertion sort with forking comparisons (native sort if nothing is symbolic)
    ks = [key (x) if key else x for x in l]
    if not B.any (isSym (k) for k in ks):
        return VList ([l[i] for i in sorted (range (len (l)), key=lambda i: ks[i], reverse=reverse)])
    out = []
    for x, k in zip (l, ks):
        p = len (out)
        while p > 0 and (bool (out[p-1][1] < k) if reverse else bool (k < out[p-1][1])): p -= 1
        out.insert (p, (x, k))
    return VList ([x for x, k in out])

def vany (xs):
    i = viter (xs)
    if isAbs (i) and CTX.mode != 'unroll': return absAll (i, True)
    while True:
        v = i.vnext ()
        if v is STOP: return False
        if v: return True
def vall (xs):
    i = viter (xs)
    if isAbs (i) and CTX.mode != 'unroll': return absAll (i, False)
    while True:
        v = i.vnext ()
        if v is STOP: return True
        if not v: return False
def absAll (i, isAny):
    s = absSeqOf (i)
    if s is None:
        from . import prelude
        return prelude.get ('anyLoop' if isAny else 'allLoop') (i)
    if CTX.branch (CTX.fresh ('found', z3.BoolSort ())):
        # there is a witness
        w = CTX.fresh ('witness', z3.IntSort ())
        CTX.assume (z3.And (w >= 0, w < s.n))
        if CTX.check () == z3.unsat: raise PathEnd ()
        v = s.elem (w)
        if bool (v) != isAny: raise PathEnd ()
        return isAny
    for j in CTX.genericIndices (s):
        if CTX.branch (z3.And (j >= 0, j < s.n)):
            if bool (s.elem (j)) == isAny: raise PathEnd ()
    return not isAny

def vround (x, n=None):
    if hasattr (x, '__round__'): return x.__round__ (n) if n is not None else x.__round__ ()
    return round (x, n)
def viterf (*a):
    if len (a) == 2: return CallIter (*a)
    x = a[0]
    f = getattr (B.type (x), '__iter__', None)
    if f is not None and B.type (x).__module__.startswith ('lulua.'): return f (x)
    return viter (x)
def vnextf (i, *d):
    if isinstance (i, VIter) or hasattr (i, 'vnext'):
        v = i.vnext ()
        if v is STOP:
            if d: return d[0]
            raise StopIteration
        if v is SKIP: raise Unsupported ('next () of a flattened or filtered abstract sequence')
        return v
    return next (i, *d)
def vord (c):
    if isinstance (c, Rope):
        return SymNum (c.code ())
    return ord (c)
def vsorted_ (xs, *, key=None, reverse=False): return vsorted (xs, key, reverse)
def vreversed (x):
    if isinstance (x, VList): return VSeqIter (x._whole ()[::-1])
    return reversed (x)
def vabs (x): return abs (x)
def vprint (*a, **k): CTX.printed.append (a) if hasattr (CTX, 'printed') else None
def vchain (*xs): return ChainIter (VSeqIter (xs))
vchain.from_iterable = vfromiter
def vproduct (*xs, repeat=1):
    pools = [B.list (it (x)) for x in xs] * repeat
    return VSeqIter (B.list (itertools.product (*pools)))
def vitemgetter (*ks):
    if len (ks) == 1: return lambda x: getitem (x, ks[0])
    return lambda x: tuple (getitem (x, k) for k in ks)

class VDeque (VList):
    def __init__ (self, items=(), maxlen=None):
        VList.__init__ (self)
        self.maxlen = maxlen
        for x in it (items): self.append (x)
    def append (self, x):
        VList.append (self, x)
        if self.maxlen is not None and len (self._whole ()) > self.maxlen: del self.items[0]
    def appendleft (self, x):
        self._whole ().insert (0, x)
        if self.maxlen is not None and len (self.items) > self.maxlen: del self.items[-1]
    def extend (self, xs):
        for x in it (xs): self.append (x)
    def popleft (self):
        if not self._whole (): raise IndexError ('pop from an empty deque')
        return self.items.pop (0)
    def pop (self):
        if not self._whole (): raise IndexError ('pop from an empty deque')
        return self.items.pop ()
    def copy (self): return VDeque (self.items, self.maxlen)
class VCounter (VDefaultDict):
    def __init__ (self, xs=None):
        VDefaultDict.__init__ (self, TInt)
        if xs is not None: self.update (xs)
    def __missing__ (self, k): return 0
    def update (self, xs):
        if isinstance (xs, (VDict, dict)):
            for k, v in (xs._pairs () if isinstance (xs, VDict) else xs.items ()): self[k] = self[k] + v
        else:
            for k in it (xs): self[k] = self[k] + 1
    def _new (self): return VCounter ()
    def most_common (self, n=None):
        r = vsorted (self.items (), key=lambda e: e[1], reverse=True)
        return r if n is None else r[:n]
class IsliceIter (VIter):
    vcx_fields = ('src', 'i')
    def __init__ (self, x, *a):
        s = slice (*a)
        if s.start not in (None, 0) or s.step not in (None, 1): raise Unsupported ('islice with start or step')
        self.src, self.i, self.n = viter (x), 0, s.stop
        self.vcx_abstract = isAbs (self.src) or isinstance (self.n, SymNum)
    def vnext (self):
        if self.n is not None and bool (self.i >= self.n): return STOP
        v = self.src.vnext ()
        if v is STOP or v is SKIP: return v
        self.i = self.i + 1
        return v

class Null:
    """ stand-in without effect (logging, progress bars) """
    def __getattr__ (self, n):
        if n.startswith ('__') or n.startswith ('vcx_'): raise AttributeError (n)
        return Null ()
    def __call__ (self, *a, **k): return Null ()
    def __enter__ (self): return self
    def __exit__ (self, *a): return False
NULL = Null ()
class VTqdm (Null):
    """ progress bar: iterates over what it is given, no other effect """
    vcx_fields = ()
    def __init__ (self, iterable=None, *a, **k): self.iterable = iterable
    def __iter__ (self): return viter (self.iterable)
    def vcx_iter (self): return viter (self.iterable)

class VRandom:
    def choice (self, xs):
        if absIterable (xs):
            s = absSeqOf (xs)
            if s is None: raise Unsupported ('choice from an unknown sequence')
            if not CTX.branch (s.n > 0): raise IndexError ('Cannot choose from an empty sequence')
            i = CTX.fresh ('choice', z3.IntSort ())
            CTX.assume (z3.And (i >= 0, i < s.n))
            return s.elem (i)
        l = B.list (it (xs))
        if not l: raise IndexError ('Cannot choose from an empty sequence')
        return l[CTX.choose (len (l))]
    def random (self):
        r = CTX.fresh ('rnd', z3.RealSort ())
        CTX.assume (z3.And (r >= 0, r < 1))
        return SymNum (r)
    def __getattr__ (self, n): raise Unsupported ('random.' + n)
class VTime:
    def time (self): return Real ('now')
    def __getattr__ (self, n): raise Unsupported ('time.' + n)

CATS = ['Lo', 'Mn', 'Lu', 'Ll', 'Lt', 'Lm', 'Mc', 'Me', 'Nd', 'Nl', 'No', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Sm', 'Sc', 'Sk', 'So', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Cs', 'Co', 'Cn']
catf = z3.Function ('category', z3.IntSort (), z3.IntSort ())
combf = z3.Function ('combining', z3.IntSort (), z3.IntSort ())
class VUnicode:
    """ unicodedata: unknown functions of the character """
    def category (self, c):
        if isinstance (c, str): return _ud.category (c)
        t = c.code ()
        CTX.assume (z3.And (catf (t) >= 0, catf (t) < len (CATS)))
        return SymEnumStr (CATS, catf (t))
    def combining (self, c):
        if isinstance (c, str): return _ud.combining (c)
        CTX.assume (combf (c.code ()) >= 0)
        return SymNum (combf (c.code ()))
    def normalize (self, form, c):
        if isinstance (c, str): return _ud.normalize (form, c)
        if CTX.normHook is not None: return CTX.normHook (form, c)
        raise Unsupported ('normalize')
    def name (self, c, *d):
        if isinstance (c, str): return _ud.name (c, *d)
        raise Unsupported ('name')
    def __getattr__ (self, n): return getattr (_ud, n)

class VOperator:
    def __getattr__ (self, n): return getattr (operator, n)
    itemgetter = staticmethod (vitemgetter)

def vdeepcopy (x, memo=None): return _copy.deepcopy (x)

BUILTINS = dict (vars (B))
BUILTINS.update (len=vlen, isinstance=visinstance, hash=vhash, int=TInt, float=TFloat, str=TStr, bytes=TBytes, bool=TBool, list=TList, tuple=TTuple,
    dict=TDict, set=TSet, frozenset=TFrozenSet, range=vrange, sum=vsum, min=vmin, max=vmax, sorted=vsorted_, any=vany, all=vall,
    map=MapIter, filter=FilterIter, zip=ZipIter, enumerate=EnumIter, iter=viterf, next=vnextf, round=vround, ord=vord, reversed=vreversed, print=vprint)

import random as _random, time as _time, logging as _logging
REPLACE = [(itertools.chain, vchain), (itertools.product, vproduct), (collections.defaultdict, VDefaultDict), (operator.itemgetter, vitemgetter), (collections.deque, VDeque), (collections.Counter, VCounter), (itertools.islice, IsliceIter),
    (operator, VOperator ()), (_random, VRandom ()), (_time, VTime ()), (_logging, NULL), (_ud, VUnicode ())]
try:
    import tqdm as _tqdm
    REPLACE.append ((_tqdm.tqdm, VTqdm))
except ImportError: pass

def patch (module):
    g = module.__dict__
    for k, v in list (g.items ()):
        for a, b in REPLACE:
            if v is a: g[k] = b
        if v in (VDict,) and False: pass

def is_ (a, b):
    if isinstance (a, Poison) or isinstance (b, Poison): raise Unsupported ('use of a value that was lost at a loop head')
    if isinstance (a, SymBool) and isinstance (b, (bool, SymBool)) or isinstance (b, SymBool) and isinstance (a, (bool, SymBool)):
        return bool (a == b)
    if isinstance (a, SymNum) and isinstance (b, (Enum, SymNum)) or isinstance (b, SymNum) and isinstance (a, (Enum, SymNum)):
        return bool (a == b)    # enumeration members: identity is equality
    if isinstance (a, _Type) or isinstance (b, _Type):
        return a == b
    for x, y in ((a, b), (b, a)):
        if y is None and isinstance (x, SymObj) and hasattr (x, 'vcx_isNone'): return x.vcx_isNone ()
    return a is b

def deepSym (x, d=5):
    if isinstance (x, (Sym, SymObj)) or getattr (x, '__vcx_sym__', False): return True
    if d and isinstance (x, (tuple, list)): return B.any (deepSym (y, d-1) for y in x)
    if d and isinstance (x, VList): return x.prefix is not None or B.any (deepSym (y, d-1) for y in x.items)
    if d and B.type (x).__module__.startswith ('lulua.'): return B.any (deepSym (getattr (x, n, None), d-1) for n in loops.slotsOf (x))
    return False

def pure (f):
    import functools
    @functools.wraps (f)
    def w (*a, **k):
        if not CTX.merge or not (deepSym (a) or deepSym (tuple (k.values ()))): return f (*a, **k)
        return merged (f, a, k)
    return w

def merged (f, a, k):
    """ all paths through an effect-free function, joined into one value """
    paths = subPaths (lambda: f (*a, **k))
    ok = [(c, v) for c, kind, v in paths if kind == 'value']
    # one of the paths is taken, and what was assumed on it (facts about the values met there) holds
    if paths: CTX.assume (z3.Or ([c for c, kind, v in paths]))
    for c, kind, v in paths:
        if kind == 'raise' and CTX.branch (c): raise v
    if not ok: raise PathEnd ()
    if B.all (isinstance (v, (int, float, SymNum, core.Fraction)) and not isinstance (v, bool) for c, v in ok):
        r = num (ok[-1][1])
        for c, v in reversed (ok[:-1]):
            x, y = core._coerce (num (v), r)
            r = x if x.eq (y) else z3.If (c, x, y)
        r = z3.simplify (r)
        return r.as_long () if z3.is_int_value (r) else SymNum (r)
    if B.all (isinstance (v, (bool, SymBool)) for c, v in ok):
        r = tobool (ok[-1][1])
        for c, v in reversed (ok[:-1]): r = z3.If (c, tobool (v), r)
        r = z3.simplify (r)
        return True if z3.is_true (r) else False if z3.is_false (r) else SymBool (r)
    for c, v in ok[:-1]:
        if CTX.branch (c): return v
    return ok[-1][1]

def subPaths (f, limit=400):
    saved = (CTX.prefix, CTX.trace, CTX.work, CTX.pc)
    out = []
    try:
        work = [[]]
        n = 0
        while work:
            CTX.prefix, CTX.trace, CTX.work = work.pop (), [], work
            CTX.pc = list (saved[3])
            base = len (CTX.pc)
            CTX.solver.push ()
            n += 1
            if n > limit: raise Unsupported ('too many paths in an effect-free function')
            try:
                try:
                    v = f ()
                    out.append ((z3.And (CTX.pc[base:]), 'value', v))
                except PathEnd: pass
                except (AttributeError, TypeError) as e: raise Unsupported (f'{e!r} in an effect-free function')
                except Exception as e:
                    if CTX.check () != z3.unsat: out.append ((z3.And (CTX.pc[base:]), 'raise', e))
            finally:
                CTX.solver.pop ()
    finally:
        CTX.prefix, CTX.trace, CTX.work, CTX.pc = saved
    return out

class Hooks:
    pure = staticmethod (pure)
    is_ = staticmethod (is_)
    mkList = staticmethod (mkList); mkSet = staticmethod (mkSet); mkDict = staticmethod (mkDict); mkDict2 = staticmethod (mkDict2)
    comp = staticmethod (comp); it = staticmethod (it); contains = staticmethod (contains); getitem = staticmethod (getitem)
    fstr = staticmethod (fstr); modstr = staticmethod (modstr); join = staticmethod (join); mcall = staticmethod (mcall)
    STOP = STOP
    @staticmethod
    def enter (lid, *a): return loops.Activation (lid, viter (a[0]) if a else None)
