"""C04: exact counts.  Arbitrary history of events from a fresh object; the counts under an arbitrary combination, an
arbitrary button and an arbitrary character equal the number of occurrences."""
from .events import *
FUN = ['stats.SimpleStats.__init__', 'stats.SimpleStats.process', 'layout.ButtonCombination.__iter__']
@harness ('history', functions=FUN, covers=['end', 'loop spec.history:0', 'rejected'], seconds=200)
def h ():
    from lulua.stats import SimpleStats
    s = run ('SimpleStats', SimpleStats, StubWriter ())
    B, K, C = SymButton ('B'), combo ('K'), SymStr (name='C')
    g = Ghost (b=0, k=0, c=0)
    counter (s.buttons, B); counter (s.combinations, K); counter (s.unknown, C)
    CTX.roots.update (s=s, g=g)
    def tables (): return ((s.buttons, 'b'), (s.combinations, 'k'), (s.unknown, 'c'))
    for n in range (3):
        CTX.invariants.append ((f'count {n} exact', lambda a, n=n: z3.And (count (tables ()[n][0]) == num (getattr (g, tables ()[n][1])), tobool (tables ()[n][0].gen.present) == (num (getattr (g, tables ()[n][1])) > 0))))
        CTX.invariants.append ((f'count {n} at least 0', lambda a, n=n: num (getattr (g, tables ()[n][1])) >= 0))
    for _ in history ():
        op = CTX.choose (3)
        if op == 0:
            mods = AbsSet (B, lambda: SymButton ('mod'))
            e = combo ('e', mods)
            # specification: one press of every modifier and of the button, one of the combination
            g.b = g.b + SymNum (z3.If (mods.has.t, 1, 0)) + SymNum (z3.If (comboBtn (e.term) == num (B.i), 1, 0))
            g.k = g.k + SymNum (z3.If (e.term == K.term, 1, 0))
            # inner loop: modifiers seen so far
            before = snapshot (s.buttons)
            def inner (a):
                i = a.iterator
                while i is not None and not isinstance (i, AbsSetIter): i = getattr (i, 'cur', None)
                if i is None: return None
                return And (count (s.buttons) == z3.If (before[0], before[1], 0) + z3.If (tobool (i.seen), 1, 0),
                    tobool (s.buttons.gen.present) == (count (s.buttons) > 0))
            CTX.invariants.append (('presses counted so far', inner))
            run ('process', s.process, e)
            CTX.invariants.pop ()
        elif op == 1:
            c = SymStr (name='c')
            g.c = g.c + SymNum (z3.If (c.term == C.term, 1, 0))
            run ('process', s.process, skip (c))
        else:
            before = [snapshot (t) for t, _ in tables ()]
            v, e = call ('process of something else', s.process, NotAnEvent (), raises=(ValueError,))
            prove (e is not None, 'anything that is not a typing event is rejected with a ValueError')
            for (t, _), (p, v) in zip (tables (), before): prove (z3.And (tobool (t.gen.present) == p, z3.Implies (p, num (t.gen.value) == v)), 'a rejected event changes no count')
            cover ('rejected')
    for t, n in tables ():
        prove (count (t) == num (getattr (g, n)), {'b': 'every button', 'k': 'every combination', 'c': 'every skipped character'}[n] + ' is counted as often as it occurred')
        prove (implies (t.gen.present, num (getattr (g, n)) > 0), 'nothing else is listed')
    cover ('end')
