"""C12: annealing.  States are objects with independent copies that a mutation changes in place; energies, the sequence of
mutations and the number of steps are arbitrary.  The specification state remembers what it saw at the mutation calls."""
from .api import *
energyOf = z3.Function ('energyOf', z3.IntSort (), z3.RealSort ())
class State:
    vcx_walk = True
    __slots__ = ('val',)
    def __init__ (self, val): self.val = val
    def copy (self): return State (self.val)
    __copy__ = copy
    def __deepcopy__ (self, memo): return self.copy ()
def E (v): return energyOf (num (v))
def observe (ann, g):
    """ what is current after a step: the proposed state or the one before it, completely """
    v = num (ann.state.val)
    prove (z3.Or (v == num (g.prop), v == num (g.prev)), 'a rejected mutation restores the state before it')
    prove (z3.Implies (E (g.prop) < E (g.prev), v == num (g.prop)), 'a mutation that lowers the energy is kept')
    if CTX.choose (2): g.W = ann.state.val
def annealer (g):
    from lulua.optimize import Annealer
    class A (Annealer):
        __module__ = 'lulua.optimize'
        def mutate (self):
            observe (self, g)
            g.prev = self.state.val
            self.state.val = g.prop = Int ('v')
            CTX.assume (g.prop.t != num (g.prev))
            d = SymNum (CTX.fresh ('diff', z3.RealSort ()))
            CTX.assume (d.t == E (g.prop) - E (g.prev))
            return d
    return A
def setup ():
    v0 = Int ('v0')
    g = CTX.roots['g'] = Ghost (prev=v0, prop=v0, W=v0)
    s = State (v0)
    ann = CTX.roots['ann'] = run ('Annealer', annealer (g), s)
    # any number the code keeps may be the energy of any state it (or the specification) remembers
    def terms (snap):
        return {'energy of ' + '.'.join (map (str, p)): E (x[1]) - E (v0) for p, x in snap.items () if p[-1] in ('val', 'W') and x[0] == 'atom' and loops.isNum (x[1])}
    CTX.terms = terms
    CTX.invariants += [('current state', lambda a: z3.And (z3.Or (num (ann.state.val) == num (g.prop), num (ann.state.val) == num (g.prev)), z3.Implies (E (g.prop) < E (g.prev), num (ann.state.val) == num (g.prop))))]
    return v0, g, ann
def finish (v0, g, ann, r):
    observe (ann, g)
    bs, be = r
    be = num (be)
    prove (be == E (bs.val) - E (v0), 'the energy returned is the sum of the changes that led to the state returned')
    prove (be <= 0, 'the energy returned is not positive')
    prove (be <= E (g.W) - E (v0), 'no accepted state has a lower energy')
    v = num (bs.val)
    run ('mutate', ann.mutate)
    prove (num (r[0].val) == v, 'the state returned is a copy: later mutations do not change it')
@harness ('run', functions=['optimize.Annealer.__init__', 'optimize.Annealer.run'], covers=['end', 'loop lulua.optimize'])
def h ():
    v0, g, ann = setup ()
    n = Int ('steps', 0)
    r = run ('run', ann.run, n)
    finish (v0, g, ann, r)
    cover ('end')
for n in (1, 2, 3):
    @harness (f'{n} steps', refute=True, functions=['optimize.Annealer.run'])
    def h (n=n):
        v0, g, ann = setup ()
        r = run ('run', ann.run, n)
        finish (v0, g, ann, r)
assumption ('mutate () of the concrete annealer changes the state and returns the change of the energy (C14 proves that for the layout optimizer); copy () of a state is independent (C11, C13)')
