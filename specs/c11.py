"""C11: accumulated effort.  The triad effort is made an arbitrary real number per triad (model with baseline effort only);
the history of operations is arbitrary and of any length; weights are arbitrary reals."""
from .api import *
FUN = ['carpalx.Carpalx.__init__', 'carpalx.Carpalx.addTriad', 'carpalx.Carpalx.removeTriad', 'carpalx.Carpalx.reset', 'carpalx.Carpalx.effort', 'carpalx.Carpalx.copy', 'carpalx.Carpalx.addTriads']
def params ():
    from lulua.carpalx import ModelParams
    return ModelParams (kBPS=(1, 0, 0), k123S=(1, 0, 0, 0), w0HRF=(0, 0, 0, 0), pHand=Always (0), pRow=Always (0), pFinger=Always (Always (0)), fHRF=(0, 0, 0),
        baselineEffort=FnMap (lambda t: SymNum (base (t))))
def new ():
    from lulua.carpalx import Carpalx
    c = run ('Carpalx', Carpalx, params (), StubWriter ())
    forget (c)
    return c
def forget (c):
    # the cache is not part of this contract (see C10): any entry may or may not be there; lookups find nothing
    for n in loops.slotsOf (c):
        if isinstance (getattr (c, n), VDict): setattr (c, n, NoMemory ())
class NoMemory (VDict):
    def __setitem__ (self, k, v): pass
def triad ():
    b = SymButton ('b')
    return tuple (comb ([], [x]) for x in (b, b, b)), SymNum (base (nameOf (num (b.i))))
def mean (c, A, N, what):
    e = run (what, lambda: c.effort)
    if CTX.branch (num (N) == 0): prove (eq (e, 0), 'effort is 0 if the weights sum to zero')
    else: prove (num (e) * num (N) == num (A), 'effort is the weighted mean over what is included')

@harness ('history', functions=FUN[:5], covers=['end', 'loop spec.history:0'])
def h ():
    c = CTX.roots['c'] = new ()
    g = CTX.roots['g'] = Ghost (A=Fraction (0), N=Fraction (0))
    CTX.invariants.append (('sum of efforts', lambda a: None))
    for _ in history ():
        op = CTX.choose (3)
        if op == 2:
            run ('reset', c.reset)
            g.A, g.N = Fraction (0), Fraction (0)
        else:
            t, e = triad ()
            n = Real ('n')
            p = SymNum (CTX.fresh ('prod', z3.RealSort ()))
            CTX.assume (p.t == n.t * e.t)
            if op == 0:
                run ('addTriad', c.addTriad, t, n)
                g.A, g.N = g.A + n * e, g.N + n
            else:
                run ('removeTriad', c.removeTriad, t, n)
                g.A, g.N = g.A - n * e, g.N - n
    mean (c, g.A, g.N, 'effort')
    cover ('end')

@harness ('copy', functions=FUN, covers=['end'])
def h ():
    c = new ()
    t, e = triad (); n = Real ('n')
    run ('addTriad', c.addTriad, t, n)
    d = run ('copy', c.copy)
    mean (d, n * e, n, 'effort of the copy')
    t2, e2 = triad (); m = Real ('m')
    which = CTX.choose (2)
    a, b = (c, d) if which == 0 else (d, c)
    if CTX.choose (2): run ('reset', a.reset); A = N = Fraction (0)
    else:
        run ('addTriad', a.addTriad, t2, m)
        A, N = n*e + m*e2, n + m
    mean (b, n * e, n, 'effort of the untouched one')
    mean (a, A, N, 'effort of the changed one')
    cover ('end')

@harness ('adding a table', functions=['carpalx.Carpalx.addTriads'], covers=['end'])
def h ():
    c = CTX.roots['c'] = new ()
    g = CTX.roots['g'] = Ghost (A=Fraction (0), N=Fraction (0))
    t, e = triad (); n = Real ('n')
    run ('addTriad', c.addTriad, t, n)
    g.A, g.N = n*e, n
    # a table of any size: entry i has effort E (i) and weight W (i)
    ids = z3.Function ('ids', z3.IntSort (), z3.IntSort ())
    W = z3.Function ('W', z3.IntSort (), z3.RealSort ())
    class Table (VIter):
        """ items () of the table; the specification state accumulates what was handed out """
        vcx_abstract = True
        vcx_fields = ('pos',)
        def __init__ (self): self.pos = 0; self.n = Int ('size', 0)
        def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= num (self.n)]
        def vnext (self):
            if not bool (self.pos < self.n): return STOP
            p = num (self.pos)
            self.pos = self.pos + 1
            b = SymButton ('b', i=SymNum (ids (p)))
            w = SymNum (W (p))
            g.A, g.N = g.A + w * SymNum (base (nameOf (ids (p)))), g.N + w
            return (tuple (comb ([], [x]) for x in (b, b, b)), w)
    class Mapping:
        def items (self): return Table ()
        def vcx_iter (self): raise Unsupported ('iteration over the keys of the table')
        __iter__ = vcx_iter
    run ('addTriads', c.addTriads, Mapping ())
    mean (c, g.A, g.N, 'effort')
    cover ('end')
