"""C05: triads.  The private state of the object after any history is that of a fresh object that processed only the last
(up to three) relevant combinations since the last skip: lemmas 'state …' prove it by induction over the history.  From
each of these states one more arbitrary event counts exactly one window or none."""
from .events import *
FUN = ['stats.TriadStats.__init__', 'stats.TriadStats.process']
def fresh (K, present, value):
    from lulua.stats import TriadStats
    s = run ('TriadStats', TriadStats, CTX.roots['w'])
    if not isinstance (s.triads, VDict): raise Unsupported ('triads is not a dict')
    counter (s.triads, K, present, value)
    return s
def relevant (e, kb):
    """ not one of the four ignored keys """
    return z3.And ([comboBtn (e.term) != num (kb[n].i) for n in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab')])
def setup ():
    w = CTX.roots['w'] = StubWriter (StubLayout (NamedKeyboard ()))
    kb = w.layout.keyboard
    K = tuple (combo (f'K{i}') for i in range (3))
    return kb, K
class NamedKeyboard (StubKeyboard):
    """ keyboard known by its contract: buttons of different names are different """
    def __getitem__ (self, n):
        if n not in self.buttons: self.buttons[n] = SymButton (n)
        for a, x in self.buttons.items ():
            for b, y in self.buttons.items ():
                if a < b: CTX.assume (num (x.i) != num (y.i))
        return self.buttons[n]
    find = __getitem__
def window (K, a, b, c): return z3.And (K[0].term == a.term, K[1].term == b.term, K[2].term == c.term)

def step (j):
    kb, K = setup ()
    s = fresh (K, False, 0)
    es = [combo (f'e{i}') for i in range (j)]
    ign = [kb[n] for n in ('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab')]
    for e in es: CTX.assume (relevant (e, kb))
    for e in es: run ('process', s.process, e)
    # the counts so far are arbitrary
    p, v = Bool ('present'), Int ('count', 1)
    s.triads.gen.present, s.triads.gen.value = p, v
    s.triads.entries = []
    before = count (s.triads)
    op = CTX.choose (4)
    ref = fresh (K, p, v)
    if op == 0:
        e = combo ('e')
        CTX.assume (relevant (e, kb))
        possible ()
        run ('process', s.process, e)
        inc = window (K, es[-2], es[-1], e) if j >= 2 else z3.BoolVal (False)
        prove (count (s.triads) == before + z3.If (inc, 1, 0), 'a relevant press counts the window of the last three presses once, and nothing else')
        prove (implies (s.triads.gen.present, z3.Or (p.t, inc)), 'nothing else is listed')
        if j == 3:
            for x in es[1:] + [e]: run ('process', ref.process, x)
            abstraction (sameState (s, ref, skip=('triads',)), 'state after four presses is that after the last three')
        cover ('press')
    else:
        if op == 1:
            run ('process', s.process, skip (Base ('skipped', n=z3.IntVal (1)).whole ()))
            other = ref
            name = 'state after a skip is that of a fresh object'
            cover ('skip')
        else:
            for x in es: run ('process', ref.process, x)
            if op == 2:
                e = combo ('e')
                CTX.assume (z3.Not (relevant (e, kb)))
                possible ()
                run ('process', s.process, e)
                name = 'state after an ignored press is unchanged'
                cover ('ignored')
            else:
                _, exc = call ('process of something else', s.process, NotAnEvent (), raises=(ValueError,))
                prove (exc is not None, 'anything that is not a typing event is rejected with a ValueError')
                name = 'state after a rejected event is unchanged'
                cover ('rejected')
        prove (count (s.triads) == before, 'skips, ignored presses and rejected events count nothing')
        prove (implies (s.triads.gen.present, p), 'nothing else is listed')
        abstraction (sameState (s, ref, skip=('triads',)), name)
for j in range (4):
    harness (f'event after {j} relevant presses', functions=FUN, covers=['press', 'skip', 'ignored', 'rejected']) (lambda j=j: step (j))

@harness ('short histories', functions=FUN, refute=True, seconds=60)
def h ():
    kb, K = setup ()
    s = fresh (K, False, 0)
    win, n = [], z3.IntVal (0)
    for i in range (5):
        op = CTX.choose (3)
        if op == 0:
            e = combo (f'e{i}')
            CTX.assume (relevant (e, kb))
            run ('process', s.process, e)
            win.append (e)
            if len (win) >= 3: n = n + z3.If (window (K, *win[-3:]), 1, 0)
        elif op == 1:
            run ('process', s.process, skip (Base ('skipped', n=z3.IntVal (1)).whole ()))
            win = []
        else: break
    prove (count (s.triads) == n, 'windows of a short history are counted exactly')
assumption ('a combination has exactly one button (asserted by the code); equality of combinations as in C16')
