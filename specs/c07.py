"""C07: words.  The text typed so far is an unknown text T of any length; every event types the next (arbitrary) slice of it
or is a skip.  The specification state knows where the word in progress starts; for an arbitrary word K the count
equals the number of completed words equal to K."""
from .events import *
FUN = ['stats.WordStats.__init__', 'stats.WordStats.process']
isK = z3.Function ('isK', z3.IntSort (), z3.IntSort (), z3.BoolSort ())
class Word:
    """ an arbitrary non-empty word; which slices of the typed text equal it is unknown """
    vcx_fields = ()
    __vcx_sym__ = True
    def __init__ (self, T): self.T = T
    def __eq__ (self, o):
        if o is self: return True
        if isinstance (o, Rope):
            if must (o.lent () == 0): return False
            if len (o.segs) == 1 and o.segs[0][0] == 'sl' and o.segs[0][1] is self.T: return SymBool (z3.And (isK (o.segs[0][2], o.segs[0][3]), o.segs[0][2] < o.segs[0][3]))
        if isinstance (o, str) and not o: return False
        raise Unsupported ('word that is not a part of the typed text')
    def __hash__ (self): raise Unsupported ('hash')
class Typed (Rope):
    """ text of one event; the specification follows its characters as they are read """
    g = None
    def vcx_iter (self): return TypedIter (self)
class TypedIter (RopeIter):
    vcx_fields = ('pos',)
    def __init__ (self, r):
        RopeIter.__init__ (self, r)
        self.g, self.start = r.g, r.first
        self.vcx_abstract = True
    def vcx_inv (self): return RopeIter.vcx_inv (self) + [num (self.g.pos) == self.start + num (self.pos)]
    def vnext (self):
        v = RopeIter.vnext (self)
        g = self.g
        if v is STOP: return v
        cat = catOf (v)
        letter = z3.Or (cat == models.CATS.index ('Lo'), cat == models.CATS.index ('Mn'))
        p, ws = num (g.pos), num (g.ws)
        g.count = SymNum (z3.simplify (num (g.count) + z3.If (z3.And (z3.Not (letter), ws < p, isK (ws, p)), 1, 0)))
        g.ws = SymNum (z3.simplify (z3.If (letter, ws, p + 1)))
        g.pos = SymNum (z3.simplify (p + 1))
        return v
def catOf (c):
    t = models.catf (c.code ())
    CTX.assume (z3.And (t >= 0, t < len (models.CATS)))
    return t
@harness ('history', functions=FUN, covers=['end', 'loop spec.history:0', 'word'], seconds=300)
def h ():
    from lulua.stats import WordStats
    T = Base ('T')
    g = Ghost (pos=0, ws=0, count=0, vcx_quiet=('count',))
    T.anchor = lambda: g.pos      # where an empty word in progress is
    class L (StubLayout):
        def getText (self, e):
            q = Int ('q')
            CTX.assume (z3.And (q.t >= num (g.pos), q.t <= T.n))
            r = Typed ('str', [('sl', T, num (g.pos), q.t)])
            r.g, r.first = g, num (g.pos)
            return r
    s = run ('WordStats', WordStats, StubWriter (L ()))
    if not isinstance (s.words, VDict): raise Unsupported ('words is not a dict')
    counter (s.words, Word (T))
    CTX.roots.update (s=s, g=g)
    CTX.invariants.append (('words exact', lambda a: z3.And (count (s.words) == num (g.count), tobool (s.words.gen.present) == (num (g.count) > 0), num (g.count) >= 0)))
    for _ in history ():
        op = CTX.choose (3)
        if op == 0:
            run ('process', s.process, combo ('e'))
        elif op == 1:
            run ('process', s.process, skip (Base ('skipped', n=z3.IntVal (1)).whole ()))
            g.ws = g.pos
        else:
            _, exc = call ('process of something else', s.process, NotAnEvent (), raises=(ValueError,))
            prove (exc is not None, 'anything that is not a typing event is rejected with a ValueError')
    prove (count (s.words) == num (g.count), 'every completed word is counted as often as it occurred')
    prove (implies (s.words.gen.present, num (g.count) > 0), 'nothing else is listed')
    cover ('end')
    CTX.assume (num (g.count) > 1)
    cover ('word')
assumption ('unicode categories are an arbitrary function of the character')
