"""C06: run lengths.  Arbitrary history from a fresh object; for an arbitrary hand or finger and an arbitrary length L, the
number of runs equals what the specification state counted."""
from .events import *
FUN = ['stats.RunlenStats.__init__', 'stats.RunlenStats.process']
class AnyCounter:
    """ counter table the specification does not follow: reading gives anything """
    vcx_fields = ()
    __hash__ = None
    def __getitem__ (self, k): return Int ('any', 0)
    def get (self, k, d=None): return Int ('any', 0)
    def __setitem__ (self, k, v): pass
    def vcx_contains (self, k): return Bool ('any')
    def setdefault (self, k, d=None): return self[k]
def table (m, keys, K, L):
    """ the (complete) table of counters, followed under K, L """
    if not isinstance (m, VDict) or m.gen is not None: raise Unsupported ('not a dict')
    lazy = isinstance (m, VDefaultDict)
    for k in keys:
        if not lazy: prove (k in m, 'there is a table for every hand and finger')
        if k in m: prove (len (m[k]) == 0, 'a fresh object has no counts')
        if not isinstance (m[k], VDict): raise Unsupported ('not a dict of dicts')
    d = m[keys[0]].copy ()
    counter (d, L)
    m.gen = Gen (K, True, d, AnyCounter, total=True)
    m.d, m.entries = None, []
    return d
def setup (L):
    from lulua.stats import RunlenStats
    from lulua.layout import LEFT, RIGHT, FingerType
    s = run ('RunlenStats', RunlenStats, StubWriter ())
    h, f = Int ('h', 1, 2), Int ('f', 1, 5)
    hd = table (s.perHandRunlenDist, [LEFT, RIGHT], h, L)
    fd = table (s.fingerRunlenDist, [(a, b) for a in (LEFT, RIGHT) for b in FingerType], (h, f), L)
    return s, h, f, hd, fd

@harness ('history', functions=FUN, covers=['end', 'loop spec.history:0'], seconds=400)
def h ():
    L = Int ('L', 1)
    s, h, f, hd, fd = setup (L)
    g = Ghost (hand=0, finger=0, run=0, frun=0, hc=0, fc=0, vcx_quiet=('hc', 'fc'))
    CTX.roots.update (s=s, g=g)
    for n, d in (('hc', hd), ('fc', fd)):
        CTX.invariants.append ((f'{n} exact', lambda a, n=n, d=d: z3.And (count (d) == num (getattr (g, n)), tobool (d.gen.present) == (num (getattr (g, n)) > 0), num (getattr (g, n)) >= 0)))
    for _ in history ():
        op = CTX.choose (3)
        if op == 0:
            e = combo ('e')
            b = comboBtn (e.term)
            H, F = hand (b), finger (b)
            handFinger (SymButton (i=SymNum (b)))
            same = eq (g.hand, H)
            fsame = And (same, eq (g.finger, F))
            g.hc = SymNum (z3.simplify (num (g.hc) + z3.If (And (num (g.run) > 0, Not (same), eq (g.hand, h), eq (g.run, L)), 1, 0)))
            g.fc = SymNum (z3.simplify (num (g.fc) + z3.If (And (num (g.frun) > 0, Not (fsame), eq (g.hand, h), eq (g.finger, f), eq (g.frun, L)), 1, 0)))
            g.run = SymNum (z3.simplify (z3.If (same, num (g.run) + 1, 1)))
            g.frun = SymNum (z3.simplify (z3.If (fsame, num (g.frun) + 1, 1)))
            g.hand, g.finger = SymNum (H), SymNum (F)
            run ('process', s.process, e)
        elif op == 1:
            run ('process', s.process, skip ())
            g.hand, g.finger, g.run, g.frun = 0, 0, 0, 0
        else:
            _, exc = call ('process of something else', s.process, NotAnEvent (), raises=(ValueError,))
            prove (exc is not None, 'anything that is not a typing event is rejected with a ValueError')
    prove (count (hd) == num (g.hc), 'completed runs per hand are counted exactly')
    prove (count (fd) == num (g.fc), 'completed runs per finger are counted exactly')
    prove (And (implies (hd.gen.present, num (g.hc) > 0), implies (fd.gen.present, num (g.fc) > 0)), 'nothing else is listed')
    cover ('end')
