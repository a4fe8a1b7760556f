"""C14: incremental energy.  The list of triads has any length; one arbitrary triad I is followed: what the energy counts for it
is, at all times, its weight times the effort of the triad mapped by the current button map.  (Carpalx: C11's contract.)"""
from .slots import *
slotAt = z3.Function ('slotAt', z3.IntSort (), z3.IntSort (), Slot)         # triad, position → slot
weight = z3.Function ('weight', z3.IntSort (), z3.RealSort ())
w3 = z3.Function ('effortOfTriad', Slot, Slot, Slot, z3.RealSort ())
eff = z3.Function ('effortOfState', z3.IntSort (), z3.RealSort ())
def uses (i, s): return z3.Or ([slotAt (i, k) == s for k in range (3)])
class Energy:
    """ Carpalx by its contract: the effort is a function of what is included (version); the specification follows what is
    included for triad I """
    vcx_walk = True
    def __init__ (self, I, incl, ver): self.I, self.incl, self.ver = I, incl, ver
    @property
    def effort (self): return SymNum (eff (num (self.ver)))
    def _who (self, v):
        t = z3.simplify (num (v))
        if z3.is_app (t) and t.decl ().eq (weight): return t.arg (0), 1
        t = z3.simplify (-num (v))
        if z3.is_app (t) and t.decl ().eq (weight): return t.arg (0), -1
        raise Unsupported ('weight that is not that of a triad')
    def _add (self, t, v, sign):
        t = list (it (t))
        if len (t) != 3: raise Unsupported ('not a triad')
        j, sg = self._who (v)
        c = w3 (*map (slotOf, t)) * (sign * sg)
        self.incl = SymNum (num (self.incl) + z3.If (j == num (self.I), c, 0))
        self.ver = Int ('ver')
    def addTriad (self, t, v): self._add (t, v, 1)
    def removeTriad (self, t, v): self._add (t, v, -1)
    def addTriads (self, ts): raise Unsupported ('addTriads')
    def reset (self):
        self.incl = SymNum (z3.RealVal (0))
        self.ver = Int ('ver')
    def copy (self): return Energy (self.I, self.incl, self.ver)
class IndexSet:
    """ set of triad numbers, of unknown size; membership is known for I """
    __hash__ = None
    vcx_container = 'set'
    vcx_fields = ('has',)
    def __init__ (self, I, has): self.I, self.has = I, has
    def add (self, i): self.has = SymBool (z3.simplify (z3.Or (tobool (self.has), num (i) == num (self.I))))
    def vcx_contains (self, i):
        if CTX.branch (num (i) == num (self.I)): return SymBool (tobool (self.has))
        return Bool ('member')
    def vcx_iter (self): return IndexIter (self.I, self.has)
    __iter__ = vcx_iter
    def union (self, *os): return IndexSet (self.I, SymBool (z3.Or (tobool (self.has), *[tobool (o.has) for o in map (idxset, os)])))
    __or__ = union
    def intersection (self, *os): return IndexSet (self.I, SymBool (z3.And (tobool (self.has), *[tobool (o.has) for o in map (idxset, os)])))
    __and__ = intersection
    def difference (self, o): return IndexSet (self.I, SymBool (z3.And (tobool (self.has), z3.Not (tobool (idxset (o).has)))))
    __sub__ = difference
    def symmetric_difference (self, o): return IndexSet (self.I, SymBool (tobool (self.has) != tobool (idxset (o).has)))
    __xor__ = symmetric_difference
    def copy (self): return IndexSet (self.I, self.has)
    def update (self, *os): self.has = self.union (*os).has
    def __bool__ (self):
        if CTX.branch (tobool (self.has)): return True
        CTX.abstract = True
        return bool (CTX.choose (2))
def idxset (x):
    """ set of what an iterable gives """
    if isinstance (x, IndexSet): return x
    if isinstance (x, IndexIter): return IndexSet (x.I, x.has)
    if isinstance (x, models.ChainIter):
        st = x.stages ()
        if st is None: raise Unsupported ('set of an unknown chain')
        return idxset (st[0]).union (*st[1:])
    if isinstance (x, VSet) and not x._list (): return IndexSet (G[0], False)
    raise Unsupported ('set of unknown elements')
class IndexList:
    """ list of what a chain of index sets gives, with repetitions """
    __hash__ = None
    vcx_fields = ()
    def __init__ (self, parts): self.parts = parts
    def vcx_iter (self): return models.ChainIter (VList (self.parts)._whole ())
def idxlist (x):
    if isinstance (x, IndexSet): return x
    if isinstance (x, models.ChainIter):
        st = x.stages ()
        if st is not None and all (isinstance (y, IndexSet) for y in st): return IndexList (list (st))
    return None
G = [None]
class IndexIter (VIter):
    """ every member exactly once, in any order """
    vcx_abstract = True
    vcx_fields = ('pos', 'seen')
    def __init__ (self, I, has): self.I, self.has, self.pos, self.n, self.seen = I, has, 0, Int ('members', 0), False
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= self.n.t, z3.Implies (tobool (self.seen), tobool (self.has))]
    def vnext (self):
        if CTX.branch (z3.simplify (num (self.pos) >= self.n.t)):
            CTX.assume (tobool (self.has) == tobool (self.seen))
            possible ()
            return STOP
        self.pos = self.pos + 1
        here = CTX.fresh ('isI', z3.BoolSort ())
        CTX.assume (z3.Implies (here, z3.And (tobool (self.has), z3.Not (tobool (self.seen)))))
        if CTX.branch (here):
            self.seen = True
            return self.I
        j = Int ('j', 0)
        CTX.assume (z3.And (j.t != num (self.I), j.t < NT[0]))
        possible ()
        return j
NT = [None]
class Index:
    """ stateToTriad by its contract (proved by the harness 'index'): slot → numbers of the triads that use it """
    __hash__ = None
    vcx_fields = ()
    vcx_container = 'dict'
    def __init__ (self, I): self.I = I
    def __getitem__ (self, k): return IndexSet (self.I, SymBool (uses (num (self.I), enc (k))))
    def get (self, k, d=None): return self[k]
    def vcx_contains (self, k): return SymBool (uses (num (self.I), enc (k)) if CTX.choose (2) else z3.BoolVal (True))
def triads (m=None):
    n = NT[0] = CTX.fresh ('ntriads', z3.IntSort ())
    CTX.assume (n >= 0)
    def elem (i):
        ss = [slotAt (i, k) for k in range (3)]
        for s in ss:
            CTX.assume (z3.And (Slot.btn (s) >= 0, *([z3.Select (m.dom.t, s)] if m else [])))
            if m: m.fact (s)
        return (tuple (combination (dec (s)) for s in ss), SymNum (weight (i)))
    return VList ([], AbsSeq ('triads', elem, n))
def any_ ():
    I = Int ('I', 0)
    CTX.setHook, CTX.listHook = idxset, idxlist
    G[0] = I
    return I
def setup (init=True):
    from lulua import optimize, carpalx
    m = slotMap ()
    I = any_ ()
    ts = triads (m)
    CTX.assume (I.t < NT[0])
    o = run ('LayoutOptimizer', optimize.LayoutOptimizer, m, VList (), MapLayout (), Pins (), StubWriter (), carpalx.models['mod01'])
    for n in ('triads', 'stateToTriad'):
        if not hasattr (o, n): raise Unsupported (f'{n} is gone')
    o.triads, o.stateToTriad = ts, Index (I)
    o.state.carpalx = Energy (I, None, None)
    for k in range (3): CTX.assume (z3.And (Slot.btn (slotAt (I.t, k)) >= 0, z3.Select (m.dom.t, slotAt (I.t, k)))); m.fact (slotAt (I.t, k))
    CTX.roots['o'] = o
    return m, I, o
def mapped (m, I): return w3 (*[z3.Select (m.arr.t, slotAt (num (I), k)) for k in range (3)])
@harness ('mutation', functions=['optimize.LayoutOptimizer.mutate', 'optimize.mapButton', 'optimize.LayoutOptimizer.energy', 'util.first'], covers=['end'], seconds=200, cut=['lulua.optimize.LayoutOptimizer.mutate'])
def h ():
    m, I, o = setup ()
    e = o.state.carpalx
    old = mapped (m, I)
    pre = m.copy ()
    e.incl, e.ver = SymNum (old), Int ('ver')
    v0 = e.ver.t
    def terms (snap): return {'mapped now': mapped (o.state.buttonMap, I), 'mapped before': old, 'nothing': z3.RealVal (0)}
    def preds (snap):
        out = {}
        for p, x in snap.items ():
            if p[-1] == 'seen' and x[0] == 'atom' and loops.isBool (x[1]):
                s = tobool (x[1])
                ts = dict (terms (snap))
                i = snap.get (p[:-1])
                if i is not None and isinstance (i[2], IndexIter): ts['nothing for members'] = z3.If (tobool (i[2].has), 0, old)
                for n1, t1 in ts.items ():
                    for n2, t2 in ts.items ():
                        out[f'{".".join (map (str, p))}: {n1} else {n2}'] = num (e.incl) == z3.If (s, t1, t2)
        out.update (slotPreds (snap))
        return out
    slotPreds = CTX.preds
    CTX.preds = preds
    d = run ('mutate', o.mutate)
    post = o.state.buttonMap
    if not isinstance (post, SlotMap) or not isinstance (o.state.carpalx, Energy): raise Unsupported ('state replaced')
    prove (num (o.state.carpalx.incl) == mapped (post, I), 'every triad counts with its effort under the new map, once')
    en = run ('energy', o.energy)
    prove (num (en) == eff (num (o.state.carpalx.ver)), 'energy () is the effort of the state')
    prove (num (d) == num (en) - eff (v0), 'the change returned is the difference of the energies')
    cover ('end')
@harness ('initial energy', functions=['optimize.LayoutOptimizer._resetEnergy', 'optimize.mapButton'], covers=['end', 'loop lulua.optimize'])
def h ():
    m, I, o = setup ()
    e = o.state.carpalx
    e.incl, e.ver = Real ('incl'), Int ('ver')
    def preds (snap):
        out = {}
        for p, x in snap.items ():
            if p[-1] == 'pos' and x[0] == 'atom' and loops.isNum (x[1]):
                out[f'{".".join (map (str, p))}: counted so far'] = num (e.incl) == z3.If (I.t < num (x[1]), mapped (m, I), 0)
        return out
    CTX.preds = preds
    run ('_resetEnergy', o._resetEnergy)
    prove (num (o.state.carpalx.incl) == mapped (m, I), 'every triad counts with its effort, once')
    cover ('end')
@harness ('index', functions=['optimize.LayoutOptimizer.__init__'], covers=['end'])
def h ():
    from lulua import optimize, carpalx
    I = any_ ()
    K = CTX.fresh ('K', Slot)
    CTX.assume (Slot.btn (K) >= 0)
    ts = triads ()
    CTX.assume (I.t < NT[0])
    for k in range (3): CTX.assume (Slot.btn (slotAt (I.t, k)) >= 0)
    made = []
    def hook (d):
        if made: return
        made.append (d)
        d.gen = Gen (dec (K), True, IndexSet (I, False), lambda: IndexSet (I, Bool ('x')), total=True)
        d.d, d.entries = None, []
    CTX.dictHook = hook
    def preds (snap):
        out = {}
        if made:
            s = made[0].gen.value
            for p, x in snap.items ():
                if p[-1] == 'pos' and x[0] == 'atom' and loops.isNum (x[1]): out[f'{".".join (map (str, p))}: indexed so far'] = tobool (s.has) == z3.And (I.t < num (x[1]), uses (I.t, K))
        return out
    CTX.preds = preds
    o = run ('LayoutOptimizer', optimize.LayoutOptimizer, slotMap2 (), ts, MapLayout (), Pins (), StubWriter (), carpalx.models['mod01'])
    if not made or o.stateToTriad is not made[0]: raise Unsupported ('the index is not a defaultdict of sets')
    prove (tobool (o.stateToTriad[dec (K)].has) == uses (I.t, K), 'the index holds for every slot exactly the triads that use it')
    cover ('end')
def slotMap2 ():
    p = CTX.preds
    m = slotMap ()
    CTX.preds = p
    return m
assumption ('C14: sums over the triads are split into the contributions of the single triads (finite sums); Carpalx by its contract C11, the effort of a triad is a function of its combinations (C10)')
