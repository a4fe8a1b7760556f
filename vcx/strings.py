"""Symbolic strings.
Rope: concatenation of literals and slices base[lo:hi] of unknown texts (for streams; offsets are linear terms).
SymStr: a single unknown string of which only identity matters (interned as an integer)."""
import z3
from .core import *
from .values import STOP

class Base:
    """ unknown text or byte string; at (i) is the code of its character i.  The same text on every path (by its symbol). """
    known = {}
    absorbs = False         # characters put after a slice of this text that equal its next ones extend the slice
    def __new__ (cls, name, kind='str', n=None):
        k = (cls, name, kind, CTX.counter)
        if k not in cls.known: cls.known[k] = object.__new__ (cls)
        return cls.known[k]
    def __init__ (self, name, kind='str', n=None):
        self.name, self.kind = name, kind
        CTX.counter += 1
        self.f = z3.Function (f'at_{name}!{CTX.counter}', z3.IntSort (), z3.IntSort ())
        if n is None:
            n = CTX.fresh ('len_' + name, z3.IntSort ())
        self.n = num (n)
        CTX.assume (self.n >= 0)
        self.anchor = None
    def at (self, i): return self.f (i)
    def whole (self): return Rope (self.kind, [('sl', self, z3.IntVal (0), self.n)])
    def slice (self, lo, hi): return Rope (self.kind, [('sl', self, num (lo), num (hi))])
    def __repr__ (self): return self.name

class Mapped (Base):
    """ another text with its characters replaced one to one """
    @classmethod
    def of (cls, src, m):
        key = (id (src), tuple (sorted (m.items ())))
        if key not in cls.known:
            b = object.__new__ (cls)
            b.src, b.m, b.name, b.kind, b.n, b.anchor = src, dict (m), src.name + "'", src.kind, src.n, None
            cls.known[key] = b
        return cls.known[key]
    def __new__ (cls): raise TypeError ()
    def at (self, i):
        c = r = self.src.at (i)
        for k, v in self.m.items (): r = z3.If (c == k, z3.IntVal (v), r)
        return z3.simplify (r)

def must (c):
    c = z3.simplify (c)
    if z3.is_true (c): return True
    if z3.is_false (c): return False
    return CTX.check (z3.Not (c)) == z3.unsat

def cat (segs): return segs if CTX.catHook is None else [CTX.catHook (s) for s in segs]
class Rope:
    vcx_rope = True
    __vcx_sym__ = True
    def __init__ (self, kind, segs=()):
        self.kind = kind
        out = []
        A = CTX.absorb
        for s in segs:
            if A is not None and not out and A.kind == kind and (s[0] == 'lit' and len (s[1]) == 1 or s[0] == 'sl' and s[1] is not A and must (s[3] == s[2]+1)):
                # a text that starts like the one expected
                if must (A.at (z3.IntVal (0)) == ((ord (s[1]) if kind == 'str' else s[1][0]) if s[0] == 'lit' else s[1].at (s[2]))):
                    out.append (('sl', A, z3.IntVal (0), z3.IntVal (1)))
                    continue
            if s[0] == 'lit':
                if not s[1]: continue
                if out and out[-1][0] == 'sl' and out[-1][1].absorbs and len (s[1]) == 1 and must (out[-1][1].at (out[-1][3]) == (ord (s[1]) if kind == 'str' else s[1][0])):
                    out[-1] = out[-1][:3] + (z3.simplify (out[-1][3] + 1),)
                    continue
                if out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + s[1])
                else: out.append (s)
            else:
                lo, hi = z3.simplify (s[2]), z3.simplify (s[3])
                if lo.eq (hi): continue
                if out and out[-1][0] == 'sl' and out[-1][1] is s[1] and must (out[-1][3] == lo):
                    out[-1] = ('sl', s[1], out[-1][2], hi)
                elif out and out[-1][0] == 'sl' and out[-1][1].absorbs and out[-1][1] is not s[1] and must (z3.And (hi == lo + 1, out[-1][1].at (out[-1][3]) == s[1].at (lo))):
                    out[-1] = out[-1][:3] + (z3.simplify (out[-1][3] + 1),)
                else: out.append (('sl', s[1], lo, hi))
        self.segs = out
    def lift (self, x):
        if isinstance (x, Rope): return x
        if isinstance (x, str) and self.kind == 'str' or isinstance (x, (bytes, bytearray)) and self.kind == 'bytes':
            return Rope (self.kind, [('lit', bytes (x) if self.kind == 'bytes' else x)])
        if isinstance (x, SymStr): raise Unsupported ('mixing opaque strings and ropes')
        return None
    @staticmethod
    def seglen (s): return z3.IntVal (len (s[1])) if s[0] == 'lit' else z3.simplify (s[3] - s[2])
    def lent (self):
        t = z3.IntVal (0)
        for s in self.segs: t = t + self.seglen (s)
        return z3.simplify (t)
    def vcx_len (self):
        t = self.lent ()
        return t.as_long () if z3.is_int_value (t) else SymNum (t)
    def __len__ (self):
        n = self.vcx_len ()
        if isinstance (n, int): return n
        raise Unsupported ('length of a symbolic string outside the instrumented code')
    def __bool__ (self):
        if not self.segs: return False
        return CTX.branch (self.lent () > 0)
    def __add__ (self, o):
        o = self.lift (o)
        return NotImplemented if o is None else Rope (self.kind, cat (self.segs + o.segs))
    def __radd__ (self, o):
        o = self.lift (o)
        return NotImplemented if o is None else Rope (self.kind, cat (o.segs + self.segs))
    def split_at (self, a):
        """ (self[:a], self[a:]) for 0 ≤ a ≤ len """
        a = num (a)
        left = []
        rest = list (self.segs)
        while rest:
            s = rest[0]
            L = self.seglen (s)
            if must (a >= L) or not must (a < L) and CTX.branch (a >= L):
                left.append (s)
                rest.pop (0)
                a = z3.simplify (a - L)
                continue
            # inside (or at the start of) this segment
            if s[0] == 'lit':
                k = a.as_long () if z3.is_int_value (a) else SymNum (a).concretize ()
                left.append (('lit', s[1][:k]))
                rest[0] = ('lit', s[1][k:])
            else:
                left.append (('sl', s[1], s[2], z3.simplify (s[2] + a)))
                rest[0] = ('sl', s[1], z3.simplify (s[2] + a), s[3])
            break
        return Rope (self.kind, left), Rope (self.kind, rest)
    def _pos (self, x, default):
        """ clamped offset for slicing """
        n = self.lent ()
        if x is None: return default
        x = num (x)
        if not must (x >= 0) and CTX.branch (x < 0):
            x = z3.simplify (x + n)
            if not must (x >= 0) and CTX.branch (x < 0): return z3.IntVal (0)
        if not must (x <= n) and CTX.branch (x > n): return n
        return x
    def __getitem__ (self, i):
        if isinstance (i, slice):
            if i.step is not None: raise Unsupported ('slice with step')
            n = self.lent ()
            a, b = self._pos (i.start, z3.IntVal (0)), self._pos (i.stop, n)
            if not must (a <= b) and CTX.branch (a > b): return Rope (self.kind)
            _, r = self.split_at (a)
            l, _ = r.split_at (z3.simplify (b - a))
            return l
        n = self.lent ()
        i = num (i)
        if CTX.branch (z3.And (i >= 0, i < n)): a = i
        elif CTX.branch (z3.And (i < 0, i >= -n)): a = z3.simplify (i + n)
        else: raise IndexError ('string index out of range')
        _, r = self.split_at (a)
        l, _ = r.split_at (z3.IntVal (1))
        if self.kind == 'bytes': return SymNum (l.code ())
        return l
    def code (self):
        """ code of a single character """
        s = self.segs[0]
        if s[0] == 'lit': return z3.IntVal (ord (s[1][0]) if self.kind == 'str' else s[1][0])
        return s[1].at (s[2])
    def codeAt (self, k):
        """ code of the character at constant offset k (assuming it is there) """
        _, r = self.split_at (z3.IntVal (k))
        return r.code ()
    def same (self, o):
        """ structurally equal (z3 terms compared with the solver) """
        if len (self.segs) != len (o.segs): return False
        for a, b in zip (self.segs, o.segs):
            if a[0] != b[0]: return False
            if a[0] == 'lit':
                if a[1] != b[1]: return False
            elif a[1] is not b[1] or not must (z3.And (a[2] == b[2], a[3] == b[3])): return False
        return True
    def __eq__ (self, o):
        o = self.lift (o) if not isinstance (o, SymStr) else None
        if o is None: return NotImplemented
        if self.same (o): return True
        n, m = self.lent (), o.lent ()
        if must (n != m): return False
        # a literal of known length
        for x, y in ((self, o), (o, self)):
            if all (s[0] == 'lit' for s in y.segs):
                lit = y.segs[0][1] if y.segs else (b'' if self.kind == 'bytes' else '')
                if len (lit) == 0: return SymBool (z3.simplify (x.lent () == 0))
                if len (lit) <= 16:
                    if not CTX.branch (x.lent () == len (lit)): return False
                    cond = [x.codeAt (k) == (ord (c) if self.kind == 'str' else c) for k, c in enumerate (lit)]
                    return SymBool (z3.simplify (z3.And (cond)))
        if len (self.segs) == 1 and len (o.segs) == 1 and must (z3.And (n == 1, m == 1)):
            return SymBool (z3.simplify (self.code () == o.code ()))
        return self.wordEq (o)
    def wordEq (self, o):
        """ equality of two unknown texts: some truth value that implies equal lengths (and is symmetric, functional) """
        if CTX.ropeEq is not None: return CTX.ropeEq (self, o)
        raise Unsupported ('comparison of unknown texts')
    def __ne__ (self, o):
        r = self.__eq__ (o)
        if r is NotImplemented: return r
        return SymBool (z3.Not (r.t)) if isinstance (r, SymBool) else not r
    def __hash__ (self): raise Unsupported ('hash of a symbolic string')
    def __repr__ (self):
        return '+'.join (repr (s[1]) if s[0] == 'lit' else f'{s[1]}[{s[2]}:{s[3]}]' for s in self.segs) or "''"
    def __str__ (self): raise Unsupported ('str () of a symbolic string outside the instrumented code')
    def __format__ (self, f): raise Unsupported ('formatting of a symbolic string')
    def __iter__ (self):
        t = self.lent ()
        if not z3.is_int_value (t):
            if CTX.mode != 'unroll': raise Unsupported ('iteration over a symbolic string outside the instrumented code')
        it = RopeIter (self)
        while True:
            v = it.vnext ()
            if v is STOP: return
            yield v
    def vcx_iter (self): return RopeIter (self)
    def __copy__ (self): return self
    def __deepcopy__ (self, m): return self
    def encode (self, *a): raise Unsupported ('encode')
    def decode (self, *a, **k):
        raise Unsupported ('decode')
    def startswith (self, p):
        if isinstance (p, str):
            if not CTX.branch (self.lent () >= len (p)): return False
            return bool (self[:len (p)] == p)
        raise Unsupported ('startswith')
    def mapped (self, m):
        """ characters replaced one to one; m: {code: code} """
        if any (s[0] == 'lit' for s in self.segs): raise Unsupported ('replacement in a text that is partly known')
        return Rope (self.kind, [('sl', Mapped.of (s[1], m), s[2], s[3]) for s in self.segs])
    def replace (self, a, b, *n):
        if n or not isinstance (a, str) or not isinstance (b, str) or len (a) != 1 or len (b) != 1: raise Unsupported ('replacement of texts')
        return self.mapped ({ord (a): ord (b)})
    def translate (self, t):
        t = {(k if isinstance (k, int) else ord (k)): v for k, v in t.items ()}
        if any (not isinstance (v, int) and (not isinstance (v, str) or len (v) != 1) for v in t.values ()): raise Unsupported ('translation to texts')
        return self.mapped ({k: v if isinstance (v, int) else ord (v) for k, v in t.items ()})
    def isspace (self): raise Unsupported ('isspace')
    # bytes of known length, unknown contents
    def _known (self):
        t = self.lent ()
        if not z3.is_int_value (t):
            n = next ((k for k in range (65) if must (t == k)), None)
            if n is None: raise Unsupported ('strip or conversion of a text of unknown length')
            return n
        return t.as_long ()
    def _inset (self, k, chars):
        """ is the character at offset k one of these? (forks) """
        c = self.codeAt (k)
        return CTX.branch (z3.Or ([c == (x if isinstance (x, int) else ord (x)) for x in chars]))
    def rstrip (self, chars=None):
        n = self._known ()
        if chars is None: chars = b' \t\n\r\x0b\f' if self.kind == 'bytes' else None
        if chars is None: raise Unsupported ('strip of white space')
        while n > 0 and self._inset (n-1, chars): n -= 1
        return self[:n]
    def lstrip (self, chars=None):
        n = self._known ()
        if chars is None: chars = b' \t\n\r\x0b\f' if self.kind == 'bytes' else None
        if chars is None: raise Unsupported ('strip of white space')
        k = 0
        while k < n and self._inset (k, chars): k += 1
        return self[k:]
    def strip (self, chars=None): return self.rstrip (chars).lstrip (chars)
    def partition (self, sep):
        n = self._known ()
        if len (sep) != 1: raise Unsupported ('partition')
        for k in range (n):
            if self._inset (k, sep): return self[:k], self[k:k+1], self[k+1:]
        return self, Rope (self.kind), Rope (self.kind)
    def split (self, sep=None, maxsplit=-1):
        if sep is None or len (sep) != 1: raise Unsupported ('split')
        out, r = [], self
        while maxsplit != 0:
            a, b, c = r.partition (sep)
            if not b.segs: break
            out.append (a)
            r = c
            maxsplit -= 1
        from .values import VList
        return VList (out + [r])
    def vcx_int (self, base=10):
        n = self._known ()
        if n == 0: raise ValueError ('invalid literal for int ()')
        if base > 10: raise Unsupported ('conversion with this base')
        cs = [self.codeAt (k) for k in range (n)]
        if CTX.branch (z3.And ([z3.And (c >= 48, c < 48 + base) for c in cs])):
            z = z3.IntVal (0)
            for c in cs: z = z * base + (c - 48)
            return SymNum (z3.simplify (z))
        bad = lambda c: z3.And (c >= 0, c < 128, z3.Or (c < 48, c >= 48 + base), *[c != x for x in b'_-+oObB \t\n\r\x0b\f'])
        if CTX.branch (z3.Or ([bad (c) for c in cs])): raise ValueError ('invalid literal for int ()')
        raise PathUnknown ('conversion of an unusual literal')


class RopeIter:
    vcx_fields = ('pos',)
    def __init__ (self, rope):
        self.rope = rope
        self.pos = 0
        self.n = rope.lent ()
        self.vcx_abstract = not z3.is_int_value (self.n)
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= self.n]
    def vnext (self):
        if CTX.branch (z3.simplify (num (self.pos) >= self.n)): return STOP
        _, r = self.rope.split_at (num (self.pos))
        c, _ = r.split_at (z3.IntVal (1))
        self.pos = self.pos + 1
        if self.rope.kind == 'bytes': return SymNum (c.code ())
        return c
    def __iter__ (self): return self
    def __next__ (self):
        v = self.vnext ()
        if v is STOP: raise StopIteration
        return v

# -- opaque strings --------------------------------------------------------
_intern = {}
def internId (s):
    if s not in _intern: _intern[s] = len (_intern)
    return _intern[s]
_lenf = z3.Function ('strlen', z3.IntSort (), z3.IntSort ())

class SymStr (SymObj):
    """ unknown string: an integer, literals are interned as 0, 1, … """
    vcx_str = True
    def __init__ (self, t=None, name='s'):
        self.term = t if t is not None else CTX.fresh (name, z3.IntSort ())
        CTX.assume (self.term >= 0)
    def __eq__ (self, o):
        if o is self: return True
        if isinstance (o, SymStr): return SymBool (z3.simplify (self.term == o.term))
        if isinstance (o, str): return SymBool (z3.simplify (self.term == internId (o)))
        if o is None or isinstance (o, (int, tuple, SymNum)): return False
        return NotImplemented
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else (not r if isinstance (r, bool) else SymBool (z3.Not (r.t)))
    def __hash__ (self): raise Unsupported ('hash of a symbolic string')
    def vcx_len (self):
        CTX.assume (z3.And (_lenf (self.term) >= 0, (_lenf (self.term) == 0) == (self.term == internId (''))))
        return SymNum (_lenf (self.term))
    def __bool__ (self): return CTX.branch (self.term != internId (''))
    def __str__ (self): return self
    def __deepcopy__ (self, m): return self
    def __copy__ (self): return self
    def __getitem__ (self, i):
        if isinstance (i, slice) and i.start is None and i.stop is None and i.step is None: return self
        raise Unsupported ('indexing an opaque string')

class SymEnumStr:
    """ one of a fixed list of strings """
    __vcx_sym__ = True
    vcx_str = True
    def __init__ (self, table, t):
        self.table, self.t = table, t
    def __eq__ (self, o):
        if isinstance (o, str):
            return SymBool (z3.simplify (self.t == self.table.index (o))) if o in self.table else False
        if isinstance (o, SymEnumStr) and o.table is self.table: return SymBool (z3.simplify (self.t == o.t))
        return NotImplemented
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else (not r if isinstance (r, bool) else SymBool (z3.Not (r.t)))
    def __hash__ (self): raise Unsupported ('hash of a symbolic string')
    def __getitem__ (self, i):
        # decide which one it is
        for k, s in enumerate (self.table):
            if CTX.branch (self.t == k): return s[i]
        raise PathEnd ()
    def startswith (self, p):
        cs = [self.t == k for k, s in enumerate (self.table) if s.startswith (p)]
        return SymBool (z3.Or (cs)) if cs else False

class FStr:
    """ formatted string with symbolic parts: tuple of literals and (value, conversion, spec) """
    vcx_str = True
    __vcx_sym__ = True
    def __init__ (self, parts): self.parts = tuple (parts)
    def __eq__ (self, o):
        if isinstance (o, FStr):
            if len (self.parts) != len (o.parts): return False
            for a, b in zip (self.parts, o.parts):
                if isinstance (a, str) != isinstance (b, str): raise Unsupported ('comparison of formatted strings')
                if isinstance (a, str):
                    if a != b: return False
                elif a[1:] != b[1:]: raise Unsupported ('comparison of formatted strings')
                elif not bool (a[0] == b[0]): return False
            return True
        return NotImplemented
    def __hash__ (self): raise Unsupported ('hash of a symbolic string')
    def __add__ (self, o): return FStr (self.parts + ((o,) if isinstance (o, str) else o.parts))
    def __radd__ (self, o): return FStr (((o,) if isinstance (o, str) else o.parts) + self.parts)
    def __repr__ (self): return f'FStr{self.parts}'
    def vcx_len (self): raise Unsupported ('length of a formatted string')
