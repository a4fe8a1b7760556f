"""Core of the verification-condition generator: symbolic values, path exploration, obligations.

Obligations are generated by executing the real code (mechanically instrumented, see instr.py) on symbolic values; every
branch on a symbolic condition forks the path (by re-execution with a decision prefix).  Loops over data of unknown
length are cut with invariants (see loops.py)."""
import time, sys, subprocess, os, itertools
from fractions import Fraction
import z3
z3.z3.Z3_DEBUG = False          # the bindings check the sorts of every argument otherwise

class VcxSignal (BaseException):
    """ base of engine signals: must not be caught by the code under verification """
class PathEnd (VcxSignal):
    """ this path is finished """
class PathUnknown (PathEnd):
    """ this path is given up: nothing is proved any more, but failed obligations on other paths count """
    def __init__ (self, why): CTX.incomplete.add (why)
class Unsupported (VcxSignal):
    """ outside the supported subset: the obligation stays undecided """
class Restart (VcxSignal):
    """ loop knowledge changed: explore again """

QUERY_MS = 20000

class Ctx:
    """ one exploration of a harness """
    def __init__ (self):
        self.reset ([])
        self.queries = 0
        self.seconds = 0.0
        self.backends = {}
        self.deadline = None
        self.roots = {}
        self.mode = 'prove'     # or 'unroll'
        self.unroll = 3
        self.loops = {}
        self.final = True
        self.obl = {}
        self.covers = set ()
        self.touched = set ()
        self.births = 0
        self.debug = False
        self.maxArrivals = 12
        self.loopsSeen = set ()
        self.merge = True
        self.cutLoops = set ()

    def reset (self, prefix):
        self.prefix = list (prefix)
        self.trace = []
        self.pc = []
        self.solver = z3.Solver ()
        self.solver.set ('timeout', 5000)
        self.counter = 0
        self.abstract = False
        self.roots = {}
        self.loopStack = []
        self.axioms = []
        self.hints = []
        self.hintFn = None
        self.pending = []
        self.invariants = []
        self.terms = self.preds = self.dictHook = self.newDict = self.newList = self.listHook = None
        self.variant = self.progress = None
        self.cutKeys = set ()
        self.seenLoops = {}
        self.consumers = []
        self.allowNext = False
        self.catHook = self.ropeEq = self.joinHook = self.strHook = self.setHook = self.sumHook = self.sortHook = self.normHook = self.absorb = None
        self.genericIndices = lambda s: []
        self.otherKey = None
        self.compareConstants = True        # candidates that compare with what the loop does not change
        self.lastMin = None
        self.printed = []
        self.stack = []

    # -- solver --
    def check (self, *extra, timeout=5000):
        t = time.time ()
        if self.deadline and t > self.deadline:
            raise Unsupported ('out of time')
        self.solver.set ('timeout', timeout)
        r = self.solver.check (*extra)
        self.queries += 1
        self.seconds += time.time () - t
        return r
    def assume (self, c):
        c = tobool (c)
        if z3.is_true (c): return
        self.pc.append (c)
        self.solver.add (c)
        if self.mode != 'noprune' and z3.is_false (z3.simplify (c)):
            raise PathEnd ()
    def assumeChecked (self, c):
        self.assume (c)
        if self.check () == z3.unsat:
            raise PathEnd ()
    def fresh (self, name, sort):
        self.counter += 1
        return z3.Const (f'{name}!{self.counter}', sort)
    def branch (self, c):
        c = z3.simplify (c)
        if z3.is_true (c): return True
        if z3.is_false (c): return False
        i = len (self.trace)
        if i < len (self.prefix):
            d = self.prefix[i]
            self.trace.append (d)
            self.pc.append (c if d else z3.Not (c))
            self.solver.add (self.pc[-1])
            return d
        canT = self.check (c) != z3.unsat
        canF = self.check (z3.Not (c)) != z3.unsat if canT else True
        if canT and canF:
            self.work.append (self.trace + [False])
        elif not canT and not canF:
            raise PathEnd ()
        d = canT
        self.trace.append (d)
        self.pc.append (c if d else z3.Not (c))
        self.solver.add (self.pc[-1])
        return d
    def choose (self, n):
        """ non-deterministic choice of 0 … n-1 """
        if n <= 1: return 0
        i = len (self.trace)
        if i < len (self.prefix):
            d = self.prefix[i]
            self.trace.append (d)
            return d
        for k in range (n-1, 0, -1):
            self.work.append (self.trace + [k])
        self.trace.append (0)
        return 0

    # -- obligations --
    def prove (self, cond, name, detail=''):
        """ generate and discharge one verification condition """
        o = self.obl.setdefault (name, dict (name=name, status='proved', paths=0, queries=0, seconds=0.0, backends={}, detail='', hints=[]))
        if self.mode == 'unroll':
            o['bounded'] = True
        c = tobool (cond)
        o['paths'] += 1
        t = time.time ()
        c = z3.simplify (c)
        if self.learning and not z3.is_false (c):
            # invariants are still being searched for: decided in the final pass
            self.assume (c)
            return True
        if z3.is_true (c):
            o['backends']['simplify'] = o['backends'].get ('simplify', 0) + 1
            return True
        r = self.check (z3.Not (c), timeout=QUERY_MS)
        back = 'z3'
        model = None
        if r == z3.sat:
            model = self.solver.model ()
        elif r == z3.unknown:
            r2 = cvc5Check (self.pc + [z3.Not (c)])
            if r2 == 'unsat':
                r = z3.unsat
                back = 'cvc5'
        o['queries'] += 1
        o['seconds'] += time.time () - t
        if r == z3.unsat:
            o['backends'][back] = o['backends'].get (back, 0) + 1
            self.assume (c)
            return True
        st = 'unknown' if r == z3.unknown else ('failed' if self.abstract else 'refuted')
        worst = dict (proved=0, unknown=1, failed=2, refuted=3)
        if worst[st] > worst[o['status']]:
            o['status'] = st
            o['detail'] = f'{detail} path {self.trace}: cannot prove {str (c)[:600]}; {"counter-model: " + str (model)[:1200] if model is not None else self.solver.reason_unknown ()}'
            if model is not None and self.hintFn and not self.abstract:
                try:
                    h = self.hintFn (model)
                    if h is not None: o['hints'] = h if isinstance (h, list) else [h]
                except Exception as e:
                    o['detail'] += f' (no hint: {e!r})'
        raise PathEnd ()

    def cover (self, name):
        self.covers.add (name)

CTX = Ctx ()

def cvc5Check (assertions, ms=20000):
    s = z3.Solver ()
    s.add (*assertions)
    txt = s.to_smt2 ()
    txt = '(set-logic ALL)\n' + txt
    try:
        p = subprocess.run (['cvc5', '--lang=smt2', f'--tlimit={ms}', '-q'], input=txt, capture_output=True, text=True, timeout=ms/1000+5)
        return p.stdout.strip ().split ('\n')[-1]
    except Exception:
        return 'unknown'

def tobool (c):
    if isinstance (c, SymBool): return c.t
    if isinstance (c, bool): return z3.BoolVal (c)
    if isinstance (c, z3.BoolRef): return c
    raise Unsupported (f'not a condition: {c!r}')

class Sym:
    __slots__ = ('t',)
    def __init__ (self, t): self.t = t
    def __repr__ (self): return f'<{self.t}>'
    def __hash__ (self): raise Unsupported ('hash of a symbolic value')
    def __format__ (self, spec): raise Unsupported ('formatting a symbolic value outside the instrumented code')
    def __str__ (self): raise Unsupported ('str () of a symbolic value outside the instrumented code')
    def __copy__ (self): return self
    def __deepcopy__ (self, memo): return self
    def __reduce_ex__ (self, p): raise Unsupported ('pickling a symbolic value')

class SymBool (Sym):
    def __bool__ (self): return CTX.branch (self.t)
    def __eq__ (self, o): return SymBool (self.t == tobool (o)) if isinstance (o, (bool, SymBool)) else NotImplemented
    def __ne__ (self, o): return SymBool (self.t != tobool (o)) if isinstance (o, (bool, SymBool)) else NotImplemented
    __hash__ = Sym.__hash__
    def __and__ (self, o): return SymBool (z3.And (self.t, tobool (o)))
    __rand__ = __and__
    def __or__ (self, o): return SymBool (z3.Or (self.t, tobool (o)))
    __ror__ = __or__
    def __invert__ (self): return SymBool (z3.Not (self.t))
    def _n (self): return SymNum (z3.If (self.t, z3.IntVal (1), z3.IntVal (0)))
    def __add__ (self, o): return self._n () + o
    __radd__ = __add__
    def __sub__ (self, o): return self._n () - o
    def __mul__ (self, o): return self._n () * o
    __rmul__ = __mul__

def num (x):
    """ python number or symbolic number → z3 term """
    if isinstance (x, SymNum): return x.t
    if isinstance (x, SymBool): return x._n ().t
    if isinstance (x, bool): return z3.IntVal (int (x))
    if isinstance (x, int): return z3.IntVal (int (x))
    if isinstance (x, float):
        f = Fraction (x)
        return z3.RealVal (f'{f.numerator}/{f.denominator}')
    if isinstance (x, Fraction): return z3.RealVal (f'{x.numerator}/{x.denominator}')
    if isinstance (x, z3.ArithRef): return x
    from decimal import Decimal
    if isinstance (x, Decimal):
        return num (Fraction (x))
    return None

def isReal (t): return t.sort () == z3.RealSort ()

def _coerce (a, b):
    if isReal (a) != isReal (b):
        if not isReal (a): a = z3.ToReal (a)
        else: b = z3.ToReal (b)
    return a, b

class SymNum (Sym):
    """ mathematical integer or real """
    __slots__ = ()
    def _bin (self, o, f, swap=False):
        b = num (o)
        if b is None: return NotImplemented
        a, b = _coerce (self.t, b)
        return SymNum (z3.simplify (f (b, a) if swap else f (a, b)))
    def __add__ (self, o): return self._bin (o, lambda a, b: a+b)
    def __radd__ (self, o): return self._bin (o, lambda a, b: a+b, True)
    def __sub__ (self, o): return self._bin (o, lambda a, b: a-b)
    def __rsub__ (self, o): return self._bin (o, lambda a, b: a-b, True)
    def __mul__ (self, o): return self._bin (o, lambda a, b: a*b)
    def __rmul__ (self, o):
        if isinstance (o, (str, bytes, list, tuple)): raise Unsupported ('repetition')
        return self._bin (o, lambda a, b: a*b, True)
    def _cmp (self, o, f):
        b = num (o)
        if b is None: return NotImplemented
        a, b = _coerce (self.t, b)
        return SymBool (z3.simplify (f (a, b)))
    def __eq__ (self, o):
        if num (o) is None: return False if o is None or isinstance (o, (str, bytes, tuple, list, dict)) else NotImplemented
        return self._cmp (o, lambda a, b: a == b)
    def __ne__ (self, o):
        if num (o) is None: return True if o is None or isinstance (o, (str, bytes, tuple, list, dict)) else NotImplemented
        return self._cmp (o, lambda a, b: a != b)
    __hash__ = Sym.__hash__
    def __lt__ (self, o): return self._cmp (o, lambda a, b: a < b)
    def __le__ (self, o): return self._cmp (o, lambda a, b: a <= b)
    def __gt__ (self, o): return self._cmp (o, lambda a, b: a > b)
    def __ge__ (self, o): return self._cmp (o, lambda a, b: a >= b)
    def __neg__ (self): return SymNum (-self.t)
    def __pos__ (self): return self
    def __abs__ (self): return SymNum (z3.simplify (z3.If (self.t >= 0, self.t, -self.t)))
    def __bool__ (self): return CTX.branch (self.t != 0)
    def _div (self, a, b):
        # python raises on a zero divisor
        if CTX.branch (z3.simplify (b == 0)): raise ZeroDivisionError ('division by zero')
        a = a if isReal (a) else z3.ToReal (a)
        b = b if isReal (b) else z3.ToReal (b)
        return SymNum (z3.simplify (a / b))
    def __truediv__ (self, o):
        b = num (o)
        return NotImplemented if b is None else self._div (self.t, b)
    def __rtruediv__ (self, o):
        b = num (o)
        return NotImplemented if b is None else self._div (b, self.t)
    def _fdiv (self, a, b):
        if CTX.branch (z3.simplify (b == 0)): raise ZeroDivisionError ('division by zero')
        if isReal (a) or isReal (b):
            a, b = _coerce (a, b)
            return z3.ToReal (z3.ToInt (a / b))
        # floor division; z3 rounds so that the remainder is non-negative
        return z3.If (b > 0, a / b, (-a) / (-b))
    def __floordiv__ (self, o):
        b = num (o)
        return NotImplemented if b is None else SymNum (z3.simplify (self._fdiv (self.t, b)))
    def __rfloordiv__ (self, o):
        b = num (o)
        return NotImplemented if b is None else SymNum (z3.simplify (self._fdiv (b, self.t)))
    def __mod__ (self, o):
        b = num (o)
        if b is None: return NotImplemented
        a, b = _coerce (self.t, b)
        return SymNum (z3.simplify (a - b * self._fdiv (a, b)))
    def __rmod__ (self, o):
        b = num (o)
        if b is None: return NotImplemented
        b, a = _coerce (b, self.t)
        return SymNum (z3.simplify (b - a * self._fdiv (b, a)))
    def __divmod__ (self, o): return self // o, self % o
    def __pow__ (self, o):
        if isinstance (o, int) and 0 <= o <= 8:
            r = z3.IntVal (1)
            for _ in range (o): r = r * self.t
            return SymNum (z3.simplify (r))
        return SymNum (_pow (num (self), num (o)))
    def __rpow__ (self, o): return SymNum (_pow (num (o), num (self)))
    # bit operations on non-negative integers with constant counterparts or disjoint ranges
    def __lshift__ (self, o):
        if isinstance (o, int) and not isReal (self.t): return SymNum (z3.simplify (self.t * (1 << o)))
        raise Unsupported ('shift')
    def __rshift__ (self, o):
        if isinstance (o, int) and not isReal (self.t): return SymNum (z3.simplify (self.t / (1 << o)))
        raise Unsupported ('shift')
    def __or__ (self, o):
        a, b = self.t, num (o)
        if b is None: return NotImplemented
        # disjoint bits: a is a multiple of 2^k and 0 ≤ b < 2^k (or the other way round)
        for x, y in ((a, b), (b, a)):
            for k in range (1, 33):
                if CTX.check (z3.Not (z3.And (x % (1 << k) == 0, y >= 0, y < (1 << k), x >= 0))) == z3.unsat:
                    return SymNum (z3.simplify (x + y))
        # otherwise bit-precise over 64 bits, if provably in range
        lim = 1 << 62
        if CTX.check (z3.Not (z3.And (a >= 0, b >= 0, a < lim, b < lim))) == z3.unsat:
            return SymNum (z3.BV2Int (z3.Int2BV (a, 64) | z3.Int2BV (b, 64)))
        raise Unsupported ('bitwise or')
    __ror__ = __or__
    def __and__ (self, o):
        b = num (o)
        if isinstance (o, int) and o >= 0 and (o & (o+1)) == 0 and not isReal (self.t):
            return SymNum (z3.simplify (self.t % (o+1)))
        lim = 1 << 62
        if b is not None and CTX.check (z3.Not (z3.And (self.t >= 0, b >= 0, self.t < lim, b < lim))) == z3.unsat:
            return SymNum (z3.BV2Int (z3.Int2BV (self.t, 64) & z3.Int2BV (b, 64)))
        raise Unsupported ('bitwise and')
    __rand__ = __and__
    def concretize (self, limit=70):
        """ fork over all feasible values """
        s = z3.simplify (self.t)
        if z3.is_int_value (s): return s.as_long ()
        for _ in range (limit):
            r = CTX.check ()
            if r != z3.sat: raise Unsupported ('concretisation')
            i = len (CTX.trace)
            v = self._pick ()
            if CTX.branch (self.t == v): return v
        raise Unsupported ('too many values to concretise')
    def _pick (self):
        # deterministic: smallest feasible of the model-derived candidates
        m = CTX.solver.model ()
        v = m.eval (self.t, model_completion=True)
        if not z3.is_int_value (v): raise Unsupported ('concretisation of a non-integer')
        v = v.as_long ()
        # canonicalise towards zero for deterministic re-execution
        lo = v
        for c in range (0, 20):
            if CTX.check (self.t == c) == z3.sat: return c
        return lo
    def __index__ (self): return self.concretize ()
    def __int__ (self): return self.concretize ()
    def __float__ (self): raise Unsupported ('float() of a symbolic value')
    def __round__ (self, n=None):
        # round half to even
        p = 10 ** (n or 0)
        x = (self.t if isReal (self.t) else z3.ToReal (self.t)) * p
        f = z3.ToInt (x)
        d = x - z3.ToReal (f)
        r = z3.If (d < z3.Q (1, 2), f, z3.If (d > z3.Q (1, 2), f+1, z3.If (f % 2 == 0, f, f+1)))
        if n is None: return SymNum (z3.simplify (r))
        return SymNum (z3.simplify (z3.ToReal (r) / p))
    @property
    def real (self): return self
    def is_integer (self): return SymBool (z3.IsInt (self.t))
    # enum-like attributes
    @property
    def value (self): return self
    @property
    def name (self): return '<sym>'
    # Decimal-like
    def quantize (self, *a, **k): raise Unsupported ('quantize')

_powf = z3.Function ('pow', z3.RealSort (), z3.RealSort (), z3.RealSort ())
def _pow (a, b):
    if a is None or b is None: raise Unsupported ('pow')
    a = a if isReal (a) else z3.ToReal (a)
    b = b if isReal (b) else z3.ToReal (b)
    r = _powf (a, b)
    return r

def Int (name='i', lo=None, hi=None):
    v = SymNum (CTX.fresh (name, z3.IntSort ()))
    if lo is not None: CTX.assume (v.t >= lo)
    if hi is not None: CTX.assume (v.t <= hi)
    return v
def Real (name='r'): return SymNum (CTX.fresh (name, z3.RealSort ()))
def Bool (name='b'): return SymBool (CTX.fresh (name, z3.BoolSort ()))

_sorts = {}
def sort (name):
    if name not in _sorts: _sorts[name] = z3.DeclareSort (name)
    return _sorts[name]

class SymObj:
    """ opaque symbolic object: only equality is known.  Subclassed by the specifications. """
    SORT = 'Obj'
    def __init__ (self, t=None, name='o'):
        self.term = t if t is not None else CTX.fresh (name, sort (self.SORT))
    def __eq__ (self, o):
        if o is self: return True
        if isinstance (o, SymObj) and o.term.sort () == self.term.sort (): return SymBool (z3.simplify (self.term == o.term))
        return NotImplemented
    def __ne__ (self, o):
        r = self.__eq__ (o)
        return r if r is NotImplemented else (not r if isinstance (r, bool) else SymBool (z3.Not (r.t)))
    def __hash__ (self): raise Unsupported ('hash of a symbolic object')
    def __repr__ (self): return f'<{type (self).__name__} {self.term}>'
    def __format__ (self, s): return '<sym>'

def isSym (x, depth=4):
    """ does x contain a symbolic value? """
    if isinstance (x, (Sym, SymObj)) or getattr (x, '__vcx_sym__', False): return True
    if depth and isinstance (x, (tuple, list, frozenset, set)):
        return any (isSym (y, depth-1) for y in x)
    return False

def truth (c):
    """ python truth value, forking """
    return bool (c)

def symEq (a, b):
    """ a == b as a z3 condition (structural) """
    if a is b: return z3.BoolVal (True)
    if isinstance (a, (tuple, list)) and isinstance (b, (tuple, list)) and type (a) == type (b):
        if len (a) != len (b): return z3.BoolVal (False)
        return z3.And ([symEq (x, y) for x, y in zip (a, b)]) if a else z3.BoolVal (True)
    r = a == b
    if r is NotImplemented: return z3.BoolVal (False)
    return tobool (r) if isinstance (r, (bool, SymBool)) else z3.BoolVal (bool (r))

def explore (harness, maxPaths=6000, maxPasses=400):
    """ run harness () on all paths until nothing changes in the knowledge about loops; → number of completed paths """
    ctx = CTX
    ctx.learning = False
    for _ in range (maxPasses):
        ctx.work = [[]]
        done = ended = 0
        ctx.obl = {}
        ctx.late = []
        ctx.blocked = {}
        ctx.incomplete = set ()
        restart = False
        while ctx.work:
            prefix = ctx.work.pop ()
            ctx.reset (prefix)
            try:
                harness ()
                done += 1
            except PathEnd:
                ended += 1
            except Restart:
                restart = True
                break
            if done + ended > maxPaths: raise Unsupported (f'more than {maxPaths} paths')
        if not restart:
            if ctx.blocked:
                # inner loops first
                for k, i in ctx.blocked.items ():
                    if not any (len (q[1]) > len (k[1]) and q[1][:len (k[1])] == k[1] for q in ctx.blocked): i.stable = True
                ctx.learning = True
                continue
            if ctx.late:
                for f in ctx.late: f ()
                ctx.learning = True
            elif ctx.learning: ctx.learning = False     # the final pass checks everything
            else: return done, ended
        elif not ctx.learning: ctx.learning = True
    raise Unsupported ('no stable loop invariant found')
