"""Vocabulary of the specifications."""
import sys, types, functools, contextlib
import z3
from vcx.core import *
from vcx import core, boot, models, values, strings, loops
from vcx.core import CTX
from vcx.values import *
from vcx.strings import *
from vcx.models import VSeqIter, AbsIter, VIter, it
boot.install ()

HARNESSES = []
ASSUMPTIONS = []
FUNCTIONS = []
def harness (name, functions=(), covers=(), mode='prove', bound=None, seconds=120, tier='quick', unroll=3, arrivals=12, cut=(), refute=False):
    """ registers a proof harness: a function that sets up an arbitrary state, calls the real code and states obligations """
    def deco (f):
        HARNESSES.append (dict (name=name, fn=f, functions=list (functions), covers=list (covers), mode=mode, bound=bound, seconds=seconds, tier=tier, unroll=unroll, arrivals=arrivals, cut=list (cut), refute=refute))
        return f
    return deco
def assumption (text): ASSUMPTIONS.append (text)

def prove (c, name, detail=''): return CTX.prove (c, name, detail)
def assume (c):
    CTX.assume (c)
def possible ():
    """ ends the path if the assumptions are contradictory """
    if CTX.check () == z3.unsat: raise PathEnd ()
def cover (name):
    if CTX.check () != z3.unsat: CTX.cover (name)

DOUBTFUL = (AttributeError, TypeError, NotImplementedError, RecursionError, ImportError, NameError, SyntaxError)
def call (name, f, *a, raises=(), **k):
    """ call the code under verification; an exception that the contract does not allow on a feasible path is a failed
    obligation. → (value, None) or (None, exception) for the allowed ones """
    try:
        return f (*a, **k), None
    except VcxSignal:
        raise
    except raises as e:
        return None, e
    except DOUBTFUL as e:
        import traceback
        raise Unsupported (f'{type (e).__name__}: {e} {"".join (traceback.format_exception (e))[-900:]}')
    except StopIteration:
        raise Unsupported ('StopIteration')
    except Exception as e:
        if CTX.check () == z3.unsat: raise PathEnd ()
        import traceback
        tb = ''.join (traceback.format_tb (e.__traceback__))[-700:]
        prove (False, name + ': raises nothing', f'{type (e).__name__}: {e.args!r} {tb}')
        raise PathEnd ()
def run (name, f, *a, **k):
    v, e = call (name, f, *a, **k)
    o = CTX.obl.setdefault (name + ': raises nothing', dict (name=name + ': raises nothing', status='proved', paths=0, queries=0, seconds=0.0, backends={}, detail='', hints=[]))
    o['paths'] += 1
    if CTX.mode == 'unroll': o['bounded'] = True
    return v

def implies (a, b): return z3.Implies (tobool (a), tobool (b))
def And (*a): return z3.And ([tobool (x) for x in a])
def Or (*a): return z3.Or ([tobool (x) for x in a])
def Not (a): return z3.Not (tobool (a))
def ite (c, a, b):
    a, b = core._coerce (num (a), num (b))
    return z3.If (tobool (c), a, b)
def eq (a, b):
    """ structural equality as a condition """
    if isinstance (a, (SymNum, int, float)) and not isinstance (a, bool) and isinstance (b, (SymNum, int, float, z3.ArithRef)) and not isinstance (b, bool) or isinstance (a, z3.ArithRef):
        x, y = core._coerce (num (a), num (b))
        return x == y
    return symEq (a, b)

# -- keys ----------------------------------------------------------------------
class Sink:
    """ what a specification attaches to buttons: hand, finger, row as unknown functions of the button """
hand = z3.Function ('hand', z3.IntSort (), z3.IntSort ())
finger = z3.Function ('finger', z3.IntSort (), z3.IntSort ())
row = z3.Function ('row', z3.IntSort (), z3.IntSort ())
nameOf = z3.Function ('nameOf', z3.IntSort (), z3.IntSort ())
idOf = z3.Function ('idOf', z3.IntSort (), z3.IntSort ())
_sb = {}
def sbutton (cls):
    """ the real class, with the name of a button as an unknown injective function of its id """
    if cls not in _sb:
        def name (self):
            t = num (self.i)
            CTX.assume (idOf (nameOf (t)) == t)
            return SymStr (nameOf (t))
        _sb[cls] = type ('S' + cls.__name__, (cls,), dict (__slots__=(), name=property (name), __module__=cls.__module__))
    return _sb[cls]
def SymButton (name='btn', cls=None, i=None):
    """ arbitrary button of the real class """
    from lulua.keyboard import Button
    b = object.__new__ (sbutton (cls or Button))
    b.i = i if i is not None else SymNum (CTX.fresh (name, z3.IntSort ()))
    CTX.assume (num (b.i) >= 0)
    b.width, b.isMarked, b.scancode = 1, False, None
    return b
def handFinger (b):
    t = num (b.i)
    CTX.assume (z3.And (hand (t) >= 1, hand (t) <= 2, finger (t) >= 1, finger (t) <= 5))
    return SymNum (hand (t)), SymNum (finger (t))
def comb (mods, btns):
    from lulua.layout import ButtonCombination
    return ButtonCombination (VFrozenSet (mods), VFrozenSet (btns))
class StubKeyboard:
    """ keyboard known by its contract: name → button, button → row """
    ROWS = dict (Bl1=0, Cl1=1, Dl1=2, El1=3)
    name = 'stub'
    def __init__ (self, nrows=None):
        self.buttons = {}
        self.nrows = nrows
    def __getitem__ (self, n):
        from lulua.keyboard import Button
        if n not in self.buttons: self.buttons[n] = Button (n)
        return self.buttons[n]
    find = __getitem__
    def getRow (self, b):
        for n, r in self.ROWS.items ():
            if n in self.buttons and self.buttons[n] is b: return r
        t = num (b.i)
        if self.nrows is not None: CTX.assume (z3.And (row (t) >= 0, row (t) < self.nrows))
        return SymNum (row (t))
class StubLayout:
    name = 'stub'
    def __init__ (self, keyboard=None): self.keyboard = keyboard or StubKeyboard ()
class StubWriter:
    """ writer known by its contract: every button has a hand and a finger """
    def __init__ (self, layout=None):
        self.layout = layout or StubLayout ()
        self.lastCombination = None
    def getHandFinger (self, b): return handFinger (b)
class Always:
    """ map that gives the same value for every key """
    __hash__ = None
    def __init__ (self, v): self.v = v
    def __getitem__ (self, k): return self.v
    def get (self, k, d=None): return self.v
    def vcx_contains (self, k): return True

def textIs (v, base, lo, hi):
    """ condition under which the text v is base[lo:hi] (whatever its characters) """
    lo, hi = num (lo), num (hi)
    if isinstance (v, (str, bytes)): v = Rope (base.kind, [('lit', v)])
    if not isinstance (v, Rope): raise Unsupported (f'not a text: {v!r}')
    c, o = [], lo
    for s in v.segs:
        L = Rope.seglen (s)
        if s[0] == 'sl' and s[1] is base: c.append (z3.Or (L == 0, s[2] == o))
        elif s[0] == 'lit': c.append (z3.And ([base.at (o + k) == (x if isinstance (x, int) else ord (x)) for k, x in enumerate (s[1])]))
        else: c.append (L == 0)
        o = o + L
    return z3.simplify (z3.And (c + [o == hi]))

def drain (g, name):
    """ results of an iterable of the code, one by one (its loops are cut where they are) """
    g = iter (g)
    if isinstance (g, VIter):
        CTX.roots['drained'] = g
        a = loops.Activation ('spec.drain:0', g)
        while True:
            a.arrive ()
            v = run (name, a.next)
            if v is STOP: return
            yield v
    while True:
        def nxt ():
            try: return next (g)
            except StopIteration: return STOP
        v = run (name, nxt)
        if v is STOP: return
        yield v

def model_int (m, t):
    v = m.eval (num (t), model_completion=True)
    return v.as_long () if z3.is_int_value (v) else float (v.as_fraction ())

# -- histories -------------------------------------------------------------------
class Ghost:
    """ specification state (part of the heap a cut loop may change) """
    vcx_walk = True
    def __init__ (self, vcx_quiet=(), **k):
        self.__dict__.update (k)
        self.vcx_quiet = tuple (vcx_quiet)

class History (VIter):
    """ an arbitrary sequence of operations: the loop `for _ in History ()` in a specification is cut like any loop of the
    code, so what is proved after it holds after any number of operations """
    vcx_abstract = True
    vcx_fields = ()
    def __init__ (self): pass
    def vnext (self):
        if CTX.mode == 'unroll':
            self.k = getattr (self, 'k', 0) + 1
            if self.k > CTX.unroll: return STOP
        return STOP if CTX.branch (CTX.fresh ('stop', z3.BoolSort ())) else 0

def history (name='history'):
    """ generator driving the loop """
    a = loops.Activation ('spec.' + name + ':0', History ())
    CTX.roots['act'] = a
    n = 0
    while True:
        a.arrive ()
        if a.next () is STOP: return
        yield n
        n += 1

class FnMap:
    """ table with unknown contents """
    __hash__ = None
    def __init__ (self, f): self.f = f
    def __getitem__ (self, k):
        t = k.term if isinstance (k, SymObj) else num (k)
        return self.f (t)
    def get (self, k, d=None): return self[k]
    def vcx_contains (self, k): return True

def provePoly (a, b, name, detail=''):
    """ equality of polynomials: first by normal form """
    x, y = core._coerce (num (a), num (b))
    t = z3.simplify (x - y, som=True)
    if z3.is_rational_value (t) and t.as_fraction () == 0 or z3.is_int_value (t) and t.as_long () == 0:
        return prove (True, name, detail)
    return prove (x == y, name, detail)
base = z3.Function ('base', z3.IntSort (), z3.RealSort ())

# -- comparing object states -------------------------------------------------------
def sameState (a, b, skip=()):
    """ condition under which two object graphs are indistinguishable (locations named in skip are left out) """
    pairs = set ()
    conds = []
    def go (x, y):
        if x is y: return True
        if isinstance (x, (bool, SymBool)) and isinstance (y, (bool, SymBool)):
            conds.append (tobool (x) == tobool (y)); return True
        if num (x) is not None and num (y) is not None:
            u, v = core._coerce (num (x), num (y))
            conds.append (u == v); return True
        cx, cy = loops.children (x), loops.children (y)
        if cx is None or cy is None or getattr (x, '__vcx_sym__', False):
            if type (x) is not type (y): return False
            conds.append (symEq (x, y)); return True
        if (id (x), id (y)) in pairs: return True
        pairs.add ((id (x), id (y)))
        dx, dy = loops.descr (x), loops.descr (y)
        if dx != dy: return False
        nx, ny = [c[0] for c in cx], [c[0] for c in cy]
        if nx != ny: return False
        for (n, u, _), (_, v, _) in zip (cx, cy):
            if n in skip: continue
            if not go (u, v): return False
        return True
    ok = go (a, b)
    return z3.And (conds) if ok and conds else z3.BoolVal (ok)
def abstraction (cond, name):
    """ obligation that only supports the induction: if it does not hold, the induction is not available (undecided), which
    does not mean that the property fails """
    c = z3.simplify (tobool (cond))
    if z3.is_true (c) or CTX.check (z3.Not (c)) == z3.unsat: return prove (c, name)
    raise Unsupported (f'{name}: the induction does not go through')
