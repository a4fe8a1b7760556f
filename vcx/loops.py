"""Loops.  A loop over data of known size is unrolled (exact).  A loop over data of unknown size is cut at its head:

  first arrival    everything the loop body may change (found by comparing the whole reachable heap, below) is forgotten
                   and replaced by arbitrary values; the invariant is assumed
  second arrival   the invariant is proved again (for the arbitrary state after one arbitrary iteration); path ends
  exit             continues with the arbitrary state and the invariant

What the body may change and the invariant are found by iteration: a change of a heap location or a failed invariant
candidate is remembered and the exploration starts again (Houdini).  The last pass has no such event, so it is a proof
for the loop for any number of iterations.  Candidates are simple linear relations between the numeric locations and
the invariants given by the specification (CTX.invariants), all treated alike: none is assumed without being proved."""
import sys, ctypes, types, functools
import z3
from .core import *
from . import core
from .values import *
from .strings import *

B_any = any
UNROLL = 6          # arrivals of a while loop (with symbolic decisions) before it is cut
LocalsToFast = ctypes.pythonapi.PyFrame_LocalsToFast
LocalsToFast.argtypes = [ctypes.py_object, ctypes.c_int]

class Info:
    """ what is known about one loop (in one context) """
    def __init__ (self):
        self.cut = False
        self.changed = {}       # path → shape
        self.dropped = set ()   # names of invariant candidates that failed
        self.stable = False     # the last complete pass has not learned anything about this loop

class Missing:
    def __repr__ (self): return 'UNBOUND'
UNBOUND = Missing ()

# -- heap graph --------------------------------------------------------------
def isAtom (v):
    return v is None or isinstance (v, (bool, int, float, str, bytes, Sym, SymObj, type, types.ModuleType, types.BuiltinFunctionType, Fraction, AbsSeq, Poison, Missing, Base, range))

def slotsOf (o):
    out = []
    for c in type (o).__mro__:
        s = c.__dict__.get ('__slots__', ())
        for n in ([s] if isinstance (s, str) else s):
            if n not in ('__dict__', '__weakref__') and n not in out: out.append (n)
    d = getattr (o, '__dict__', None)
    if isinstance (d, dict): out += [n for n in d if n not in out]
    return out

def children (v):
    """ → list of (step, value, set) or None for an atom; set None: immutable """
    if isAtom (v) or isinstance (v, (Rope, FStr, SymEnumStr)): return None
    if isinstance (v, tuple):
        return [(i, x, None) for i, x in enumerate (v)]
    f = getattr (type (v), 'vcx_fields', None)
    if f is not None:
        def mk3 (n):
            def s (x): setattr (v, n, x)
            return s
        return [(n, getattr (v, n), mk3 (n)) for n in f if hasattr (v, n)]
    if isinstance (v, VList):
        def mk (i):
            def s (x): v.items[i] = x
            return s
        return [(i, x, mk (i)) for i, x in enumerate (v.items)]
    if isinstance (v, VDict):
        out = []
        if v.gen is not None:
            g = v.gen
            def sp (x): g.present = x
            def sv (x): g.value = x
            out += [('present', g.present, sp), ('value', g.value, sv)]
        if v.gen is not None: pass      # what is known about other keys is forgotten at loop heads
        elif v.d is not None:
            def mk (k):
                def s (x): v.d[k] = x
                return s
            out += [(('k', k), x, mk (k)) for k, x in v.d.items ()]
        else:
            def mk2 (e, j):
                def s (x): e[j] = x
                return s
            for i, e in enumerate (v.entries):
                out += [(('key', i), e[0], mk2 (e, 0)), (('val', i), e[1], mk2 (e, 1))]
        if isinstance (v, VDefaultDict):
            out.append (('factory', v.default_factory, None))
        return out
    if isinstance (v, VSet):
        def sm (x): v.m = x
        return [('m', v.m, sm)]
    if isinstance (v, types.MethodType):
        return [('self', v.__self__, None)]
    if isinstance (v, functools.partial):
        return [('func', v.func, None), ('args', v.args, None)]
    if isinstance (v, types.FunctionType):
        out = []
        if v.__closure__ and v.__globals__.get ('vcx__') is not None:
            for n, c in zip (v.__code__.co_freevars, v.__closure__):
                def mk4 (c):
                    def s (x): c.cell_contents = x
                    return s
                try: out.append ((n, c.cell_contents, mk4 (c)))
                except ValueError: pass
        return out
    if isinstance (v, types.GeneratorType):
        fr = v.gi_frame
        if fr is None or 'vcx__' not in fr.f_globals: return []
        if v.gi_running: return []          # its frame is on the stack, see frames ()
        return frameChildren (fr) + [('lasti', fr.f_lasti, None)]
    if type (v).__module__.startswith ('lulua.') or getattr (v, 'vcx_walk', False):
        def mk5 (n):
            def s (x): setattr (v, n, x)
            return s
        return [(n, getattr (v, n), mk5 (n)) for n in slotsOf (v) if hasattr (v, n)]
    return None

def frameChildren (fr):
    loc = fr.f_locals
    out = []
    def mk (n):
        def s (x):
            d = fr.f_locals
            d[n] = x
            LocalsToFast (fr, 0)
        return s
    co = fr.f_code
    order = {n: i for i, n in enumerate (co.co_varnames + co.co_cellvars + co.co_freevars)}
    # in a fixed order (f_locals is in the order of binding): an object is found at the first place that refers to it
    for n in sorted (loc, key=lambda n: (n.startswith ('vcx__'), order.get (n, len (order)), n)):
        if n.startswith ('vcx__v') or n.startswith ('.'): continue
        out.append ((n, loc[n], mk (n)))
    return out

def frames ():
    out = []
    fr = sys._getframe (2)
    while fr is not None:
        if 'vcx__' in fr.f_globals and fr.f_code.co_name != '<module>' : out.append (fr)
        fr = fr.f_back
    return out[::-1]

def roots ():
    """ (path, value, set, frame) """
    out = []
    for n in sorted (CTX.roots):
        def mk (n):
            def s (x): CTX.roots[n] = x
            return s
        out.append ((('root', n), CTX.roots[n], mk (n)))
    fs = frames ()
    for i, fr in enumerate (fs):
        if fr.f_code.co_flags & 0x20 and False: continue
        for n, v, s in frameChildren (fr):
            out.append ((('frame', i, fr.f_code.co_qualname, n), v, s))
    for name, m in list (sys.modules.items ()):
        if name.startswith ('lulua.') and '__builtins__' in m.__dict__ and 'vcx__' in m.__dict__:
            for cn, c in m.__dict__.items ():
                if isinstance (c, type) and c.__module__ == name:
                    for an, av in list (c.__dict__.items ()):
                        if isinstance (av, (VDict, VList, VSet)) or isinstance (av, (int, SymNum)) and not an.startswith ('__') and not isinstance (av, bool) and not hasattr (c, '__members__'):
                            def mk2 (c, an):
                                def s (x): setattr (c, an, x)
                                return s
                            out.append ((('class', name, cn, an), av, mk2 (c, an)))
                elif isinstance (c, (VDict, VList, VSet)):
                    def mk3 (m, cn):
                        def s (x): m.__dict__[cn] = x
                        return s
                    out.append ((('global', name, cn), c, mk3 (m, cn)))
    return out

def mutable (v): return not isinstance (v, tuple)

def flatten ():
    """ → {path: leaf}; leaf = ('atom', v) | ('node', descr) | ('ref', path) """
    out = {}
    seen = {}
    keep = []
    def go (path, v):
        if isinstance (v, Rope) or isAtom (v) or isinstance (v, (FStr, SymEnumStr)):
            out[path] = ('atom', v)
            return
        if mutable (v) and id (v) in seen:
            out[path] = ('ref', seen[id (v)])
            return
        cs = children (v)
        if cs is None:
            out[path] = ('atom', v)
            return
        if mutable (v):
            seen[id (v)] = path
            keep.append (v)
        out[path] = ('node', descr (v), v)
        for step, c, s in cs: go (path + (step,), c)
    for path, v, s in roots (): go (path, v)
    flatten.keep = keep
    return out

def descr (v):
    if isinstance (v, tuple): return (type (v), len (v))
    if isinstance (v, VList): return (VList, len (v.items), id (v.prefix) if v.prefix is not None else None)
    if isinstance (v, VDict) and v.gen is not None: return (type (v), 'gen')
    if isinstance (v, VDict): return (type (v), 'gen' if v.gen is not None else 'd' if v.d is not None else 'e', tuple (v.d) if v.d is not None else len (v.entries))
    if isinstance (v, types.MethodType): return (types.MethodType, v.__func__)
    if isinstance (v, types.FunctionType): return (types.FunctionType, v.__code__)
    if isinstance (v, types.GeneratorType): return (types.GeneratorType, v.gi_code, v.gi_frame is None)
    return (type (v),)

# -- shapes ------------------------------------------------------------------
def isNum (v): return isinstance (v, (int, float, SymNum, Fraction)) and not isinstance (v, bool)
def isBool (v): return isinstance (v, (bool, SymBool))
def isText (v): return isinstance (v, (str, bytes, Rope))

def same (a, b):
    """ atoms provably equal? """
    if a is b: return True
    if isinstance (a, Poison) or isinstance (b, Poison): return a is b
    if isNum (a) and isNum (b):
        x, y = core._coerce (num (a), num (b))
        return must (x == y)
    if isBool (a) and isBool (b): return must (tobool (a) == tobool (b))
    if isText (a) and isText (b):
        if isinstance (a, Rope): b = a.lift (b)
        elif isinstance (b, Rope): a = b.lift (a)
        else: return a == b
        if a is None or b is None: return False
        if a.same (b): return True
        return must (z3.And (a.lent () == 0, b.lent () == 0))
    if isinstance (a, SymObj) and isinstance (b, SymObj): return type (a) == type (b) and must (symEq (a, b))
    if isinstance (a, (Sym, SymObj, Rope)) or isinstance (b, (Sym, SymObj, Rope)): return False
    try: return type (a) == type (b) and not isinstance (a, (types.FunctionType,)) and bool (a == b) and isinstance (a, (int, float, str, bytes, Fraction))
    except Exception: return False

def baseOf (v):
    return v.segs[0][1] if isinstance (v, Rope) and len (v.segs) == 1 and v.segs[0][0] == 'sl' else None
def isEmptyText (v): return isinstance (v, (str, bytes)) and not v or isinstance (v, Rope) and not v.segs

def shapeOf (v, path, flat):
    """ shape of a value """
    if isNum (v): return ('real',) if isReal (num (v)) else ('int',)
    if isBool (v): return ('bool',)
    if v is None: return ('none',)
    if isEmptyText (v): return ('text', None, 'bytes' if isinstance (v, bytes) or isinstance (v, Rope) and v.kind == 'bytes' else 'str')
    if isText (v):
        # pieces of one text: hoped to be adjacent (checked in again ())
        b = {id (x[1]): x[1] for x in v.segs if x[0] == 'sl'} if isinstance (v, Rope) else {}
        return ('text', *b.values (), v.kind) if len (b) == 1 and all (x[0] == 'sl' for x in v.segs) else ('poison',)
    if isinstance (v, SymObj): return ('obj', type (v), getattr (v, 'vcx_fresh', None))
    return ('poison',)

def joinShape (a, b):
    if a == b: return a
    if a is None: return b
    if b is None: return a
    if {a[0], b[0]} == {'int', 'real'}: return ('real',)
    if a[0] == 'text' and b[0] == 'text' and a[2] == b[2]:
        if a[1] is None: return b
        if b[1] is None: return a
        return ('poison',)
    if a[0] == 'none' or b[0] == 'none':
        o = b if a[0] == 'none' else a
        if o[0] == 'opt': return o
        if o[0] in ('int', 'real', 'bool', 'text', 'obj', 'tuple', 'inst'): return ('opt', o)
        return ('poison',)
    if a[0] == 'opt' or b[0] == 'opt':
        x = a[1] if a[0] == 'opt' else a
        y = b[1] if b[0] == 'opt' else b
        j = joinShape (x, y)
        return ('opt', j) if j[0] != 'poison' else j
    if a[0] == 'list' and b[0] == 'list':
        return ('list', joinShape (a[1], b[1]) if a[1] and b[1] else a[1] or b[1])
    if a[0] == 'inst' and b[0] == 'inst' and a[1] == b[1] and len (a[2]) == len (b[2]) and all (x[0] == y[0] for x, y in zip (a[2], b[2])):
        return ('inst', a[1], tuple ((x[0], joinShape (x[1], y[1])) for x, y in zip (a[2], b[2])))
    if a[0] == 'tuple' and b[0] == 'tuple' and a[1] == b[1]:
        return ('tuple', a[1], tuple (joinShape (x, y) for x, y in zip (a[2], b[2])))
    return ('poison',)

def structShape (v, depth=0):
    """ shape of a structured or atomic value (for locations whose structure changes) """
    if isinstance (v, tuple):
        return ('tuple', (type (v), len (v)), tuple (structShape (x, depth+1) for x in v))
    if isinstance (v, VList):
        return ('list', listText (v))
    if depth < 3 and (type (v).__module__.startswith ('lulua.') or getattr (v, 'vcx_walk', False)) and not isinstance (v, (type, SymObj)) and not hasattr (type (v), '__members__'):
        cs = children (v)
        if cs: return ('inst', type (v), tuple ((n, structShape (c, depth+1)) for n, c, s in cs))
    return shapeOf (v, None, None)
def listText (v):
    """ shape of the concatenation, if this is a list of text pieces """
    j = joinedOf (v)
    if j is None: return None
    return shapeOf (j, None, None)
def joinedOf (v):
    j = getattr (v.prefix, 'joined', None) if v.prefix is not None else ''
    if j is None: return None
    for x in v.items:
        if not isText (x): return None
        if isinstance (j, str) and j == '': j = x if not isinstance (x, Rope) and (not x or CTX.catHook is None) else Rope (x.kind if isinstance (x, Rope) else 'str' if isinstance (x, str) else 'bytes') + x
        else: j = j + x
    return j

def fresh (shape, path):
    k = shape[0]
    nm = str (path[-1])
    if k == 'int': return SymNum (CTX.fresh (nm, z3.IntSort ()))
    if k == 'real': return SymNum (CTX.fresh (nm, z3.RealSort ()))
    if k == 'bool': return SymBool (CTX.fresh (nm, z3.BoolSort ()))
    if k == 'none': return None
    if k == 'opt':
        return None if CTX.choose (2) == 0 else fresh (shape[1], path)
    if k == 'text':
        if shape[1] is None: return '' if shape[2] == 'str' else b''
        lo, hi = CTX.fresh (nm + '_lo', z3.IntSort ()), CTX.fresh (nm + '_hi', z3.IntSort ())
        CTX.assume (z3.And (lo >= 0, lo <= hi, hi <= shape[1].n))
        return Rope (shape[2], [('sl', shape[1], lo, hi)])
    if k == 'obj':
        f = shape[2]
        return f () if f is not None else shape[1] ()
    if k == 'tuple':
        vs = [fresh (s, path + (i,)) for i, s in enumerate (shape[2])]
        t = shape[1][0]
        return tuple (vs) if t is tuple else t (*vs)
    if k == 'inst':
        o = object.__new__ (shape[1])
        for n, sh in shape[2]: setattr (o, n, fresh (sh, path + (n,)))
        return o
    if k == 'list':
        s = AbsSeq (nm)
        if shape[1] is not None and shape[1][0] == 'text':
            s.joined = fresh (shape[1], path)
            t = s.joined
            n = t.lent () if isinstance (t, Rope) else z3.IntVal (len (t))
            # pieces may be empty or longer than one character: only emptiness of everything is linked
            CTX.assume (z3.Implies (s.n == 0, n == 0))
        return VList ([], s)
    return POISON

class Change (Exception):
    def __init__ (self, path, shape): self.path, self.shape = path, shape

def parent (path, snap):
    p = path[:-1]
    return p if p in snap else None

def diff (a, b):
    """ differences between two flattened heaps → {path: shape} at the outermost place where the structure differs """
    out = {}
    def covered (p):
        return any (p[:k] in out for k in range (1, len (p)+1))
    for p in sorted (set (a) | set (b), key=lambda p: (len (p),)):
        if covered (p): continue
        x, y = a.get (p), b.get (p)
        if x is None or y is None:
            # a location that exists only once: a local that is unbound at the head, or a part of a structure
            if p[0] == 'frame' and len (p) == 4 or len (p) == 5 and p[-2] == 'x':
                out[p] = ('unbound',) if x is None else ('poison',)
                continue
            q = p[:-1]
            while q and q not in a: q = q[:-1]
            if q in a and q in b:
                if isLocalHolder (a[q]):
                    # attribute that is not there at the head
                    out[p] = ('poison',)
                else:
                    out[q] = joinShape (structShape (valueAt (a[q])), structShape (valueAt (b[q])))
            else: out[p] = ('poison',)
            continue
        if x[0] == 'atom' and y[0] == 'atom':
            if not same (x[1], y[1]):
                out[p] = joinShape (shapeOf (x[1], p, a), shapeOf (y[1], p, b))
        elif x[0] == 'ref' and y[0] == 'ref':
            if x[1] != y[1]: out[p] = ('poison',)
        elif x[0] == 'node' and y[0] == 'node':
            if x[1] != y[1]:
                out[p] = joinShape (structShape (x[2]), structShape (y[2])) if not isinstance (x[2], VDict) else ('poison',)
        else:
            out[p] = joinShape (structShape (valueAt (x)), structShape (valueAt (y))) if 'ref' not in (x[0], y[0]) else ('poison',)
    return out
def isLocalHolder (x): return x[0] == 'node' and not isinstance (x[2], (tuple, VList, VDict, VSet))
def valueAt (x): return x[1] if x[0] == 'atom' else x[2] if x[0] == 'node' else POISON

def havoc (changed):
    """ replace the values at the changed paths by arbitrary ones of their shape """
    seen = set ()
    def go (path, v):
        if path in changed:
            s = changed[path]
            return POISON if s[0] == 'unbound' else fresh (s, path)
        if isAtom (v) or isinstance (v, (Rope, FStr, SymEnumStr)): return v
        if mutable (v):
            if id (v) in seen: return v
            seen.add (id (v))
        cs = children (v)
        if cs is None: return v
        if isinstance (v, tuple):
            new = [go (path + (i,), x) for i, x, _ in cs]
            if all (x is y for x, y in zip (new, v)): return v
            return tuple (new) if type (v) is tuple else type (v) (*new)
        for step, c, s in cs:
            n = go (path + (step,), c)
            if n is not c:
                if s is None: raise Unsupported (f'loop changes an immutable location {path + (step,)}')
                s (n)
        return v
    todo = []
    seenp = set ()
    for path, v, s in roots ():
        seenp.add (path)
        n = go (path, v)
        if n is not v: todo.append ((s, n))
    for s, n in todo: s (n)
    # locals that are not bound yet
    fs = frames ()
    for path, shape in changed.items ():
        if path[0] == 'frame' and len (path) == 4 and path not in seenp and path[1] < len (fs):
            fr = fs[path[1]]
            fr.f_locals[path[3]] = POISON
            LocalsToFast (fr, 0)

# -- invariant candidates ------------------------------------------------------
def numeric (snap):
    """ numeric vocabulary of a heap: {path: term} """
    out = {}
    for p, x in snap.items ():
        if x[0] != 'atom':
            if x[0] == 'node' and isinstance (x[2], VList) and x[2].prefix is not None:
                out[p + ('len',)] = x[2].prefix.n + len (x[2].items)
                j = joinedOf (x[2])
                if j is not None: text (out, p, j)
            elif x[0] == 'node' and isinstance (x[2], VList):
                j = joinedOf (x[2])
                if j is not None:
                    text (out, p, j)
                    out[p + ('len',)] = z3.IntVal (len (x[2].items))
            continue
        v = x[1]
        if isNum (v): out[p] = num (v)
        elif isText (v): text (out, p, v)
    return out
def text (out, p, v):
    if isinstance (v, Rope) and baseOf (v) is not None and must (v.segs[0][2] == v.segs[0][3]): out[p + ('empty',)] = True
    elif isinstance (v, Rope) and baseOf (v) is not None:
        out[p + ('lo',)], out[p + ('hi',)] = v.segs[0][2], v.segs[0][3]
    elif isEmptyText (v): out[p + ('empty',)] = True

def vocabulary (snap, changed):
    n = numeric (snap)
    out = {}
    for p, t in n.items ():
        if t is True:
            # empty text: as a slice it can be put anywhere; the base may offer an anchor
            sh = shapeAt (p[:-1], changed)
            if sh and sh[0] == 'list': sh = sh[1]
            if sh and sh[0] == 'text' and sh[1] is not None:
                a = sh[1].anchor
                t = num (a ()) if a is not None else z3.IntVal (0)
                out[p[:-1] + ('lo',)] = out[p[:-1] + ('hi',)] = t
            continue
        out[p] = t
    return out
def shapeAt (p, changed):
    return changed.get (p)

def quiet (snap, p):
    """ locations the specification speaks about itself: entries of tables followed under one key, counters of ghosts """
    for k in range (1, len (p)):
        x = snap.get (p[:k])
        if x is not None and x[0] == 'node':
            if isinstance (x[2], VDict) and x[2].gen is not None: return True
            if p[k] in getattr (x[2], 'vcx_quiet', ()): return True
    return False
def under (p, changed): return any (p[:k] in changed for k in range (1, len (p)+1))

def candidates (e, snap, changed, dropped=()):
    """ {name: condition} on heap snap, given the entry heap; without those that were dropped already """
    n = vocabulary (snap, changed)
    out = {}
    def add (k, f):
        if k not in dropped: out[k] = f ()
    def eq2 (a, b): return core._coerce (a, b)
    n = {p: t for p, t in n.items () if not quiet (snap, p)}
    ch = [p for p in n if p in e and under (p, changed)]
    un = [p for p in n if p in e and not under (p, changed) and relevant (p, n[p])] if CTX.compareConstants else []
    seen = {}
    uq = []
    for p in un:
        s = n[p].sexpr ()
        if s in seen: continue
        seen[s] = p
        uq.append (p)
    if len (uq) > 40: uq = uq[:40]
    nm = lambda p: '.'.join (map (str, p))
    for i, p in enumerate (ch):
        a, a0 = n[p], e[p]
        add (f'{nm (p)} >= entry', lambda: cmp (a, a0, '>='))
        add (f'{nm (p)} <= entry', lambda: cmp (a, a0, '<='))
        add (f'{nm (p)} >= 0', lambda: a >= 0)
        add (f'{nm (p)} <= 0', lambda: a <= 0)
        for q in ch:
            if p is q: continue
            b, b0 = n[q], e[q]
            if p < q if all (type (x) == type (y) for x, y in zip (p, q)) else str (p) < str (q):
                x, y = eq2 (a, b); x0, y0 = eq2 (a0, b0)
                if x.sort () == x0.sort ():
                    add (f'{nm (p)} - {nm (q)} constant', lambda: x - y == x0 - y0)
                    add (f'{nm (p)} + {nm (q)} constant', lambda: x + y == x0 + y0)
            add (f'{nm (p)} <= {nm (q)}', lambda: cmp (a, b, '<='))
        for q in uq:
            add (f'{nm (p)} <= {nm (q)}', lambda: cmp (a, n[q], '<='))
            add (f'{nm (p)} >= {nm (q)}', lambda: cmp (a, n[q], '>='))
            if not isReal (a) and not isReal (n[q]) and not z3.is_int_value (n[q]): add (f'{nm (p)} < {nm (q)}', lambda: a < n[q])
    # terms of the specification
    if CTX.terms is not None:
        for tn, t in CTX.terms (snap).items ():
            for p in ch:
                add (f'{nm (p)} == {tn}', lambda: z3.And (cmp (n[p], t, '<='), cmp (n[p], t, '>=')))
                add (f'{nm (p)} <= {tn}', lambda: cmp (n[p], t, '<='))
    if CTX.preds is not None: out.update (CTX.preds (snap))
    # lists of text pieces: one character each
    for p in ch:
        if p[-1] == 'len' and p[:-1] + ('lo',) in ch and p[:-1] + ('hi',) in ch:
            add (f'{nm (p)} single characters', lambda: n[p] == n[p[:-1] + ('hi',)] - n[p[:-1] + ('lo',)])
    # booleans and optional values
    flags = {}
    for p, x in snap.items ():
        if x[0] == 'atom' and (isBool (x[1])) and under (p, changed) and not quiet (snap, p): flags[p] = tobool (x[1])
        elif under (p, changed) and p in changed and changed[p][0] == 'opt':
            flags[p + ('none',)] = z3.BoolVal (x[0] == 'atom' and x[1] is None)
    fl = sorted (flags, key=str)
    for i, p in enumerate (fl):
        add (f'{nm (p)}', lambda: flags[p])
        add (f'not {nm (p)}', lambda: z3.Not (flags[p]))
        for q in fl[i+1:]:
            add (f'{nm (p)} == {nm (q)}', lambda: flags[p] == flags[q])
            add (f'{nm (p)} or {nm (q)}', lambda: z3.Or (flags[p], flags[q]))
            add (f'not both {nm (p)} {nm (q)}', lambda: z3.Not (z3.And (flags[p], flags[q])))
        for q in ch:
            add (f'{nm (p)} <=> {nm (q)} == 0', lambda: flags[p] == (n[q] == 0))
            add (f'{nm (p)} <=> {nm (q)} > 0', lambda: flags[p] == (n[q] > 0))
            add (f'{nm (p)} => {nm (q)} == 0', lambda: z3.Implies (flags[p], n[q] == 0))
            add (f'{nm (p)} => {nm (q)} > 0', lambda: z3.Implies (flags[p], n[q] > 0))
            add (f'{nm (p)} or {nm (q)} > 0', lambda: z3.Or (flags[p], n[q] > 0))
    # optional numbers: present only in some paths, related by small constants
    for p in ch_opt (snap, changed):
        a = num (snap[p][1])
        add (f'{nm (p)} > 0 if set', lambda: a > 0)
        add (f'{nm (p)} >= 0 if set', lambda: a >= 0)
        for q in n:
            if q == p or not (under (q, changed)): continue
            for k in (-1, 0, 1):
                if n[q].sort () == a.sort (): add (f'{nm (p)} == {nm (q)} + {k} if set', lambda: a == n[q] + k)
    return out
def ch_opt (snap, changed):
    return [p for p, x in snap.items () if x[0] == 'atom' and isNum (x[1]) and any (p[:k] in changed and changed[p[:k]][0] == 'opt' for k in range (1, len (p)+1))]
def cmp (a, b, op):
    a, b = core._coerce (a, b)
    return a >= b if op == '>=' else a <= b
def relevant (p, t):
    if p[0] == 'class' or p[0] == 'global': return False
    return not z3.is_int_value (t) and not z3.is_rational_value (t) or True

def typeInvariants (snap):
    out = []
    for p, x in snap.items ():
        if x[0] == 'node' and hasattr (x[2], 'vcx_inv'):
            for i, c in enumerate (x[2].vcx_inv ()): out.append ((f'{".".join (map (str, p))} well-formed {i}', tobool (c)))
    return out

def userInvariants (first):
    out = {}
    for name, f in CTX.invariants:
        try:
            c = f (first)
        except (AttributeError, KeyError, TypeError, IndexError):
            continue
        if c is None: continue
        out['spec: ' + name] = tobool (c)
    return out

def textShape (sh): return sh[0] == 'text' or sh[0] in ('opt', 'list') and sh[1] is not None and textShape (sh[1])
def scattered (v):
    if isinstance (v, VList): v = joinedOf (v)
    return isinstance (v, Rope) and len (v.segs) > 1
class Activation:
    """ one execution of a loop """
    vcx_fields = ('iterator',)
    def __init__ (self, lid, iterator):
        self.lid = lid
        self.iterator = iterator
        self.arrivals = 0
        self.key = None
        self.todo = self.stages (iterator)
        self.stage = 0
        if self.todo:
            from .models import viter
            iterator = self.iterator = viter (self.todo.pop (0))
        self.abs = iterator is not None and getattr (iterator, 'vcx_abstract', False)
        CTX.loopsSeen.add (lid)
    @staticmethod
    def stages (i):
        f = getattr (i, 'stages', None)
        return f () if f is not None and CTX.mode != 'unroll' else None
    def next (self):
        v = self.iterator.vnext ()
        while v is SKIP:
            self.arrive ()
            v = self.iterator.vnext ()
        while v is STOP and self.todo:
            from .models import viter
            self.exit ()
            self.stage += 1
            self.lid = f'{self.lid.split ("#")[0]}#{self.stage}'
            self.iterator = viter (self.todo.pop (0))
            self.abs = getattr (self.iterator, 'vcx_abstract', False)
            self.arrivals = 0
            self.arrive ()
            v = self.iterator.vnext ()
        if v is STOP: self.exit ()
        return v
    def exit (self):
        """ leaving a loop by its head: only once its invariant is settled (order of exploration; see explore ()) """
        if CTX.mode != 'unroll' and self.key is not None and self.info.cut and not self.info.stable:
            CTX.blocked[self.key] = self.info
            raise PathEnd ()
    def arrive (self):
        self.arrivals += 1
        if CTX.mode == 'unroll':
            if self.arrivals > CTX.maxArrivals: raise PathEnd ()
            return
        if self.arrivals == 1:
            k = (self.lid, tuple (CTX.trace))
            CTX.seenLoops[k] = n = CTX.seenLoops.get (k, 0) + 1
            self.key = k + (n,)
            self.start = len (CTX.trace)
            info = CTX.loops.get (self.key)
            if info is None:
                info = CTX.loops[self.key] = Info ()
                CTX.births += 1
                info.born = CTX.births
            self.info = info
            if self.abs or self.lid.split (':')[0] in CTX.cutLoops: info.cut = True
            if not info.cut: return
            self.first ()
        elif not self.info.cut:
            if self.iterator is not None and getattr (self.iterator, 'vcx_abstract', False):
                # became abstract meanwhile (chain)
                raise Unsupported ('loop over a sequence that becomes abstract')
            if self.arrivals > UNROLL and len (CTX.trace) > self.start or self.arrivals > 20000:
                if self.arrivals > 20000: raise Unsupported ('loop with too many iterations')
                if self.iterator is None or self.arrivals > 2*UNROLL and getattr (self.iterator, 'cuttable', False):
                    self.info.cut = True
                    raise Restart ()
        else:
            self.again ()
    def restart (self):
        self.info.stable = False
        # knowledge of loops inside this one (their context includes this one's head) is stale
        t = self.key[1]
        for k in list (CTX.loops):
            if k != self.key and len (k[1]) >= len (t) and k[1][:len (t)] == t and CTX.loops[k].born > self.info.born: del CTX.loops[k]
        raise Restart ()
    def first (self):
        info = self.info
        entry = self.entry = flatten ()
        self.keepalive = flatten.keep
        for d in self.keepalive:
            if isinstance (d, VDict) and d.gen is not None: d.d, d.entries = None, []
        # the iterator's own invariant holds at entry by construction
        if not info.changed:
            head = entry
        else:
            evoc = self.evoc = vocabulary (entry, info.changed)
            pre = dict (candidates (evoc, entry, info.changed, info.dropped))
            pre.update (userInvariants (self))
            self.names = {n for n in pre if n not in info.dropped} if CTX.learning and info.stable else self.entryFilter (pre)
            havoc (info.changed)
            CTX.abstract = True
            head = flatten ()
            # candidate conditions now
            for nme, c in typeInvariants (head): CTX.assume (c)
            now = dict (candidates (evoc, head, info.changed, info.dropped))
            now.update (userInvariants (self))
            for nme, c in now.items ():
                if nme in self.names and nme not in info.dropped: CTX.assume (c)
            # a candidate that cannot be stated at entry but here (optional values) is not known at entry: allowed only if
            # it is vacuous there
            for nme, c in now.items ():
                if nme not in pre and nme.endswith ('if set') and nme not in info.dropped:
                    self.names.add (nme)
                    CTX.assume (c)
            if CTX.check () == z3.unsat: raise PathEnd ()
            CTX.cutKeys.add (self.key)
            # where the whole head state is needed again
        self.consumed = [(c, c[0]) for c in CTX.consumers]
        self.head = head
        self.headKeep = flatten.keep
        if CTX.variant is not None:
            self.measure = CTX.variant (self)
        if CTX.progress is not None: self.measure2 = CTX.progress (self)
    def entryFilter (self, pre):
        names = {n for n in pre if n not in self.info.dropped}
        while True:
            l = [n for n in sorted (names)]
            if not l: return names
            r = CTX.check (z3.Not (z3.And ([pre[n] for n in l])))
            if r == z3.unsat: return names
            if r == z3.sat:
                m = CTX.solver.model ()
                bad = {n for n in l if z3.is_false (m.eval (pre[n], model_completion=True))}
            else: bad = set ()
            if not bad:
                bad = {n for n in l if not must (pre[n])}
                if not bad: return names
            names -= bad
            self.info.dropped |= bad
    def again (self):
        info = self.info
        if CTX.learning and info.stable: raise PathEnd ()   # checked again in the final pass
        if B_any (c[0] != n for c, n in self.consumed): raise Unsupported ('results of a loop collected natively')
        snap = flatten ()
        keep = flatten.keep
        new = {}
        for p, s in diff (self.head, snap).items ():
            old = next ((q for q in (p[:k] for k in range (1, len (p)+1)) if q in info.changed), None)
            if old is None:
                new[p] = s
            else:
                # already arbitrary: does the new value fit the shape?
                x = valueAt (snap[old]) if old in snap else None
                sh = info.changed[old]
                if sh[0] in ('poison', 'unbound'): continue
                j = joinShape (sh, structShape (x) if old in snap else ('poison',))
                if snap.get (old, ('',))[0] == 'ref': j = ('poison',)
                if j != sh: new[old] = j
        if new:
            # a location below an existing one
            for p, s in new.items ():
                info.changed[p] = s
                for q in list (info.changed):
                    if len (q) > len (p) and q[:len (p)] == p: del info.changed[q]
            if CTX.debug: print ('loop', self.lid, 'changes', {'.'.join (map (str, p)): str (s)[:60] for p, s in new.items ()}, file=sys.stderr)
            self.restart ()
        if not info.changed:
            # nothing changes: the second iteration is the first one again
            raise PathEnd ()
        for nme, c in typeInvariants (snap):
            if not must (c): raise Unsupported (f'{nme}: not preserved')
        now = dict (candidates (self.evoc, snap, info.changed, info.dropped))
        now.update (userInvariants (self))
        l = [n for n in sorted (now) if (n in self.names or n.endswith ('if set')) and n not in info.dropped]
        gone = [n for n in self.names if n not in now and n not in info.dropped and not n.endswith ('if set') and n.startswith ('spec')]
        bad = set (gone)
        while l:
            r = CTX.check (z3.Not (z3.And ([now[n] for n in l])), timeout=10000)
            if r == z3.unsat: break
            b = set ()
            if r == z3.sat:
                m = CTX.solver.model ()
                b = {n for n in l if z3.is_false (m.eval (now[n], model_completion=True))}
            if not b:
                bad |= {n for n in l if not must (now[n])}
                break
            bad |= b
            l = [n for n in l if n not in b]
        if not bad:
            split = [p for p, sh in info.changed.items () if p in snap and textShape (sh) and scattered (valueAt (snap[p]))]
            if split:
                # pieces that are not adjacent: lost, unless something else is learned in this pass
                def late ():
                    for p in split: info.changed[p] = ('poison',)
                CTX.late.append (late)
                raise PathEnd ()
        if bad:
            info.dropped |= bad
            if CTX.debug: print ('loop', self.lid, 'drops', sorted (bad), file=sys.stderr)
            self.restart ()
        if CTX.variant is not None and self.measure is not None:
            m = CTX.variant (self)
            CTX.prove (z3.And (self.measure >= 0, m < self.measure), f'termination: the measure decreases in every iteration of {self.lid}')
        if CTX.progress is not None and self.measure2 is not None:
            # either the measure decreases, or the iteration has no effect at all (an endless loop)
            if not must (z3.And (self.measure2 >= 0, CTX.progress (self) < self.measure2)):
                still = [p for p, s in diff (self.head, snap).items () if s[0] not in ('unbound', 'poison')]
                nme = f'termination: no iteration of {self.lid.split (":")[0]} without progress'
                if not still: CTX.prove (False, nme)
                CTX.prove (True, nme)
                if CTX.obl[nme]['status'] == 'proved': CTX.obl[nme].update (status='unknown', detail=f'no measure for the termination of {self.lid} ({still[:3]})')
            else: CTX.prove (True, f'termination: no iteration of {self.lid.split (":")[0]} without progress')
        CTX.cover ('loop ' + self.lid)
        raise PathEnd ()
