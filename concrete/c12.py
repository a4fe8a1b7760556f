from common import *
RULE = 'annealing of a tracked state with prescribed energy changes, 0..60 steps; non-trivial: at least 2 steps'
def nontrivial (c): return len (c['diffs']) > 1
def fixed ():
    yield dict (diffs=[])
    yield dict (diffs=[-1]); yield dict (diffs=[1]); yield dict (diffs=[0])
    yield dict (diffs=[-5, 3, -1, 10, -20, 4, 4, -3])
    yield dict (diffs=[5, 5, -5, -5, -5, 5, -1, 1]*4)
    yield dict (diffs=[0]*10 + [-1] + [100]*20)
    yield dict (diffs=[1000] + [1]*30 + [-2, 5, -3, 7]*3)
    yield dict (diffs=[-1, 1]*10)
def gen (rng, i):
    n = rng.choice ([1, 2, 3, 5, 10, 25, 60])
    m = rng.choice ([1, 3, 10, 1000])
    up = rng.random ()
    return dict (diffs=[rng.randint (-m, m) if rng.random () > .2 else rng.choice ([0, 1, -1, m]) for _ in range (n)], cooling=rng.choice ([None, None, 0, 1, 20]))
class State:
    """ nested mutable state; .copy () is independent """
    def __init__ (self, trace): self.trace = trace
    def copy (self): return State (list (self.trace))
def check (c):
    from lulua.optimize import Annealer
    diffs = c['diffs']
    log = []
    class A (Annealer):
        def mutate (self):
            i = len (log)
            before = list (self.state.trace)
            self.state.trace.append (i)
            log.append ((before, list (self.state.trace), diffs[i]))
            return diffs[i]
    a = A (State ([]))
    if c.get ('cooling') is not None:
        a.coolingFactor = c['cooling']
    best, energy = a.run (steps=len (diffs))
    eq (len (log), len (diffs), 'number of mutations')
    ends = [l[0] for l in log[1:]] + [list (a.state.trace)]
    cur, e = [], 0
    visited = [([], 0)]
    if log:
        eq (log[0][0], [], 'initial state')
    for (before, after, d), nxt in zip (log, ends):
        eq (before, cur, 'state before a mutation')
        if nxt == after:
            cur, e = after, e+d
            visited.append ((cur, e))
        else:
            eq (nxt, before, f'state after the rejected mutation {after}')
            expect (d >= 0, f'mutation with energy change {d} was rejected')
    m = min (v[1] for v in visited)
    eq (energy, m, f'energy of the best state (visited {visited})')
    expect ((list (best.trace), energy) in visited, f'best state {best.trace} with energy {energy} was not visited: {visited}')
    expect (a.best is None or (list (a.best[0].trace), a.best[1]) == (list (best.trace), energy), 'remembered best differs from result')
    # later mutations do not change the best
    b = list (best.trace)
    a.state.trace.append ('later')
    eq (list (best.trace), b, 'best state after a later mutation')
