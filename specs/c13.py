"""C13: mutations.  The button map is an arbitrary permutation of an arbitrary set of slots; the pins are arbitrary; the random
choices are arbitrary.  One mutation from an arbitrary state is the induction step for any number of them; a second one on the
same object covers whatever else the object might remember."""
from .slots import *
def generic (m, name):
    s = CTX.fresh (name, Slot)
    CTX.assume (Slot.btn (s) >= 0)
    m.fact (s)
    CTX.assume (z3.Select (m.dom.t, s))
    return s
def setup ():
    from lulua import optimize, carpalx
    m = slotMap ()
    m0 = m.copy ()
    o = run ('LayoutOptimizer', optimize.LayoutOptimizer, m, VList (), MapLayout (), Pins (), StubWriter (), carpalx.models['mod01'])
    return m, m0, o
def step (o, m0, inv, energy, k=''):
    pre = o.state.buttonMap.copy ()
    run ('mutate', o.mutate, *(() if energy else (False,)))
    post = o.state.buttonMap
    if not isinstance (post, SlotMap): raise Unsupported ('the button map is not a map any more')
    ks = [generic (pre, f'K{i}') for i in range (3)]
    a, b, c = ks
    M, N = lambda s: pre.at (s), lambda s: post.at (s)
    L = Slot.layer
    for s in (a, b, c): m0.fact (M (s)); m0.fact (N (s))
    x = CTX.fresh ('any', Slot)
    m0.fact (x)
    prove (z3.Select (post.dom.t, x) == z3.Select (pre.dom.t, x), k + 'the slots stay the same')
    prove (z3.Select (post.dom.t, N (a)), k + 'slots are mapped to slots')
    prove (z3.Implies (a != b, N (a) != N (b)), k + 'one-to-one')
    prove (z3.Implies (pinSlot (a), N (a) == M (a)), k + 'a pinned slot keeps its assignment')
    prove (z3.Implies (z3.And (pinLayer (L (a)), z3.Or (L (M (a)) == L (a), N (a) != M (a))), L (N (a)) == L (a)), k + 'the keys of a pinned layer stay on it')
    prove (z3.Implies (z3.And (a != b, b != c, a != c), z3.Or (N (a) == M (a), N (b) == M (b), N (c) == M (c))), k + 'at most two slots change')
    prove (z3.Implies (z3.And (a != b, N (a) != M (a), N (b) != M (b)), z3.And (N (a) == M (b), N (b) == M (a))), k + 'changed slots are swapped')
    prove (post.arr.t != pre.arr.t, k + 'two different slots are swapped')
    return pre, post
FUN = ['optimize.LayoutOptimizer.__init__', 'optimize.LayoutOptimizer.mutate', 'optimize.LayoutOptimizer._acceptMutation', 'optimize.LayoutOptimizerState.copy']
for energy in (True, False):
    @harness (f'mutation, {"with" if energy else "without"} energy', functions=FUN, covers=['end'], cut=['lulua.optimize.LayoutOptimizer.mutate'])
    def h (energy=energy):
        m, m0, o = setup ()
        step (o, m0, m.inv, energy)
        cover ('end')
@harness ('second mutation', functions=FUN, covers=['end'], cut=['lulua.optimize.LayoutOptimizer.mutate'])
def h ():
    m, m0, o = setup ()
    run ('mutate', o.mutate, False)
    step (o, m0, m.inv, False)
    cover ('end')
@harness ('copies', functions=['optimize.LayoutOptimizerState.copy'], covers=['end'], cut=['lulua.optimize.LayoutOptimizer.mutate'])
def h ():
    m, m0, o = setup ()
    s = run ('copy', o.state.copy)
    before = s.buttonMap.arr.t
    prove (before == m0.arr.t, 'a copy of the state holds the same map')
    run ('mutate', o.mutate)
    prove (s.buttonMap.arr.t == before, 'later mutations do not change a copy of the state')
    cover ('end')
assumption ('C13: the modifier of layer i leads to layer i (C18); there are at least two slots; the set of pins may hold any slots and layers')
