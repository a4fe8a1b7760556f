"""C22: primitives of the text pipeline on texts, sequences and maps of unknown length and contents."""
from .api import *
item = z3.Function ('item', z3.IntSort (), sort ('Obj'))
none, truth = (z3.Function (n, sort ('Obj'), z3.BoolSort ()) for n in ('isNone', 'isTrue'))
class Item (SymObj):
    """ anything, also None or something false """
    def vcx_isNone (self):
        CTX.assume (z3.Implies (none (self.term), z3.Not (truth (self.term))))
        return CTX.branch (none (self.term))
    def __bool__ (self): return CTX.branch (truth (self.term))
class Source:
    """ iterable of n unknown items; counts how many were drawn """
    vcx_walk = True
    vcx_abstract = True
    def __init__ (self, w): self.w = w
    def vcx_iter (self): return SourceIter (self.w)
    def __iter__ (self): return SourceIter (self.w)
class SourceIter (VIter):
    vcx_fields = ()
    vcx_abstract = True
    def __init__ (self, w): self.w = w
    def vnext (self):
        w = self.w
        if CTX.branch (num (w.d) >= w.n): return STOP
        w.d = w.d + 1
        return Item (item (z3.simplify (num (w.d) - 1)))
class World:
    vcx_walk = True
    def __init__ (self, **k): self.__dict__.update (k)

@harness ('limit', functions=['util.limit'], covers=['end', 'all', 'loop lulua.util'])
def h1 ():
    from lulua.util import limit
    n, m = Int ('n', 0), Int ('len', 0)
    w = World (d=0, y=0)
    CTX.roots['w'] = w
    w.n = m.t
    CTX.invariants.append (('no more drawn than there are', lambda a: And (num (w.d) >= 0, num (w.d) <= m.t)))
    for v in drain (run ('limit', limit, Source (w), n), 'next item'):
        prove (num (w.y) < n.t, 'no more than n items')
        prove (eq (v, SymObj (item (num (w.y)))), 'items are the first ones of the source, in order')
        w.y = w.y + 1
        prove (num (w.d) <= n.t, 'no more than n items are drawn from the source')
    prove (num (w.y) == z3.If (n.t < m.t, n.t, m.t), 'as many items as there are, up to n')
    prove (num (w.d) <= n.t, 'no more than n items are drawn from the source')
    cover ('end')
    if CTX.check (num (w.y) == m.t) == z3.sat: cover ('all')

@harness ('iterchar', functions=['text.iterchar'], covers=['end', 'loop lulua.text'])
def h2 ():
    from lulua.text import iterchar
    S = Base ('S')
    w = World (q=0, y=0)
    CTX.roots['w'] = w
    S.anchor = lambda: w.q
    class Fd:
        def read (self, k=None):
            lo = num (w.q)
            hi = CTX.fresh ('upto', z3.IntSort ())
            if k is None or isinstance (k, int) and k < 0: CTX.assume (hi == S.n)
            else: CTX.assume (z3.And (lo <= hi, hi <= S.n, hi <= lo + num (k), z3.Implies (z3.And (lo < S.n, num (k) > 0), hi > lo)))
            w.q = SymNum (hi)
            return S.slice (lo, hi)
    CTX.invariants.append (('within the text', lambda a: And (num (w.q) >= 0, num (w.q) <= S.n)))
    def preds (snap):
        return {f'{p} is empty only at the end': z3.Implies ((x[1] if isinstance (x[1], Rope) else Rope ('str', [('lit', x[1])])).lent () == 0, num (w.q) == S.n)
            for p, x in snap.items () if x[0] == 'atom' and isinstance (x[1], (Rope, str)) and p[0] == 'frame'}
    CTX.preds = preds
    CTX.progress = lambda a: S.n - num (w.q) if a.iterator is None else None
    for c in drain (run ('iterchar', iterchar, Fd ()), 'next character'):
        y = num (w.y)
        prove (textIs (c, S, y, y+1), 'characters are those of the stream, one by one, in order')
        w.y = w.y + 1
    prove (num (w.y) == S.n, 'all characters of the stream')
    cover ('end')

has = z3.Function ('inMap', z3.IntSort (), z3.BoolSort ())
off = z3.Function ('mappedOffset', z3.IntSort (), z3.IntSort ())
class CharMap:
    """ a map from characters to strings; off (i) is the length of the replacement of the first i characters of S, which
    together are R """
    def __init__ (self, S, R, X): self.S, self.R, self.X = S, R, X
    def find (self, k):
        if isinstance (k, (str, int)): raise Unsupported ('map used with a known character')
        if not isinstance (k, Rope) or len (k.segs) != 1 or not must (k.lent () == 1):
            if CTX.mode == 'unroll': return self.X.whole () if CTX.branch (CTX.fresh ('known', z3.BoolSort ())) else None
            raise Unsupported ('map used with something that is not a character')
        b, lo = k.segs[0][1], k.segs[0][2]
        if not CTX.branch (has (b.at (lo))):
            if b is self.S: CTX.assume (off (lo+1) == off (lo) + 1)
            return None
        if b is not self.S: return self.X.whole ()
        CTX.assume (off (lo+1) >= off (lo))
        return self.R.slice (off (lo), off (z3.simplify (lo+1)))
    def get (self, k, d=None):
        v = self.find (k)
        return d if v is None else v
    def __getitem__ (self, k):
        v = self.find (k)
        if v is None: raise KeyError (k)
        return v
    def vcx_contains (self, k): return self.find (k) is not None
    __contains__ = vcx_contains

@harness ('mapChars', functions=['text.mapChars'], covers=['end', 'loop'])
def h3 ():
    from lulua.text import mapChars
    S, R, X = Base ('S'), Base ('R'), Base ('X')
    CTX.assume (z3.And (off (0) == 0, off (S.n) == R.n))
    R.anchor = lambda: 0
    def seg (s):
        """ where texts are put together: a character that is not in the map is its own replacement """
        n = z3.simplify (s[3] - s[2]) if s[0] == 'sl' and s[1] is S else None
        if n is not None and must (n == 1) and must (z3.Not (has (S.at (s[2])))):
            CTX.assume (off (s[2]+1) == off (s[2]) + 1)
            return ('sl', R, off (s[2]), off (z3.simplify (s[2]+1)))
        return s
    CTX.catHook = seg
    def terms (snap):
        out = {}
        for p, x in snap.items ():
            if x[0] == 'atom' and loops.isNum (x[1]) and not isReal (num (x[1])) and p[-1] in ('pos', 'i'): out['off ' + '.'.join (map (str, p))] = off (num (x[1]))
        return out
    CTX.terms = terms
    r = run ('mapChars', mapChars, S.whole (), CharMap (S, R, X))
    prove (textIs (r, R, 0, off (S.n)), 'the text with every character replaced')
    cover ('end')
@harness ('mapChars short', functions=['text.mapChars'], mode='unroll', unroll=3, refute=True, bound='texts of up to 2 characters', seconds=40)
def h3b ():
    from lulua.text import mapChars
    S, R, X = Base ('S'), Base ('R'), Base ('X')
    n = CTX.choose (3)
    CTX.assume (z3.And (off (0) == 0, off (S.n) == R.n, S.n == n))
    m = CharMap (S, R, X)
    want = Rope ('str')
    for i in range (n):
        c = S.slice (i, i+1)
        v = m.find (c)
        want = want + (c if v is None else v)
    r = run ('mapChars', mapChars, Rope ('str', [('sl', S, z3.IntVal (0), z3.IntVal (n))]), m)
    if isinstance (r, str): r = want.lift (r)
    if not isinstance (r, Rope): raise Unsupported ('unexpected result')
    prove (Or (want.same (r), And (want.lent () == 0, r.lent () == 0)), 'the text with every character replaced')
    cover ('end')

# apply: by induction over the number of filters; the recursive call is known by its contract
cnt = z3.Function ('resultCount', z3.IntSort (), sort ('Obj'), z3.IntSort ())
out = z3.Function ('result', z3.IntSort (), sort ('Obj'), z3.IntSort (), sort ('Obj'))
flat = z3.Function ('flat', z3.IntSort (), sort ('Obj'))
tot = z3.Function ('total', z3.IntSort (), z3.IntSort ())
class Filters:
    """ list of unknown filters: F[lo:hi] """
    def __init__ (self, lo, hi): self.lo, self.hi = num (lo), num (hi)
    def vcx_len (self): return SymNum (z3.simplify (self.hi - self.lo))
    def __bool__ (self): return CTX.branch (self.hi > self.lo)
    def __getitem__ (self, k):
        if isinstance (k, slice):
            if k.step is not None: raise Unsupported ('slice with step')
            n = self.hi - self.lo
            def at (x, d):
                if x is None: return d
                x = num (x)
                return z3.simplify (z3.If (x >= 0, z3.If (x <= n, x, n), z3.If (x + n >= 0, x + n, 0)))
            return Filters (z3.simplify (self.lo + at (k.start, z3.IntVal (0))), z3.simplify (self.lo + at (k.stop, n)))
        k = num (k)
        if CTX.branch (z3.And (k >= 0, k < self.hi - self.lo)): return filter_ (z3.simplify (self.lo + k))
        if CTX.branch (z3.And (k < 0, k >= self.lo - self.hi)): return filter_ (z3.simplify (self.hi + k))
        raise IndexError ('list index out of range')
    def copy (self): return self
def filter_ (fi):
    def f (x):
        i = x.index
        n = cnt (fi, x.term)
        CTX.assume (z3.And (n >= 0, tot (0) == 0, tot (i+1) == tot (i) + n))
        def elem (j):
            v = Item (out (fi, x.term, j))
            CTX.assume (flat (tot (i) + j) == v.term)
            return v
        f.used = fi
        return AbsSeq ('results', elem, n)
    f.index = fi
    f.used = None
    return f
def items (m):
    def elem (i):
        v = Item (item (i))
        v.index = i
        return v
    return VList ([], AbsSeq ('items', elem, m))
@harness ('apply', functions=['text.apply'], covers=['empty', 'end', 'loop'])
def h4 ():
    import lulua.text
    real = getattr (lulua.text, 'vcx_apply', None) or lulua.text.apply
    lulua.text.vcx_apply = real
    calls = []
    class Result (Exception): pass
    m = Int ('m', 0).t
    def stub (fs, xs):
        calls.append ((fs, xs))
        if len (calls) > 1 or not isinstance (fs, Filters): raise Unsupported ('unexpected recursion')
        r = items (m)       # some sequence
        calls.append (r)
        return r
    lulua.text.apply = stub
    lo, hi = Int ('lo', 0), Int ('hi', 0)
    CTX.assume (lo.t <= hi.t)
    fs, xs = Filters (lo, hi), items (m)
    w = World (y=0)
    CTX.roots['w'] = w
    try:
        r = run ('apply', real, fs, xs)
    finally:
        lulua.text.apply = real
    def isTheItems (r):
        if r is xs: return prove (True, 'no filter: the items themselves')
        for v in drain (r, 'next result'):
            prove (eq (v, SymObj (item (num (w.y)))), 'no filter: the items themselves')
            w.y = w.y + 1
        prove (num (w.y) == m, 'no filter: all items')
    def isFlat (r, fi):
        """ r is the concatenation of the results of filter fi for every item """
        CTX.assume (tot (0) == 0)
        def place (a):
            i = a.iterator
            while i is not None and not isinstance (i, models.FlatIter): i = getattr (i, 'src', None)
            return None if i is None else And (num (w.y) == tot (num (i.i)) + num (i.j), num (i.j) >= 0, Or (num (i.j) == 0, And (num (i.i) < m, num (i.j) <= cnt (fi, item (num (i.i))))))
        CTX.invariants.append (('place', place))
        for v in drain (r, 'next result'):
            prove (eq (v, SymObj (flat (num (w.y)))), 'the results of a filter for each item, in order')
            w.y = w.y + 1
        prove (num (w.y) == tot (m), 'all results of a filter for all items')
    if CTX.branch (lo.t == hi.t):
        if calls: raise Unsupported ('recursion for no filters')
        isTheItems (r)
        cover ('empty')
        return
    if not calls: raise Unsupported ('not recursive')
    (cfs, cxs), tok = calls
    if r is tok:
        # first filter, then the others
        prove (z3.And (cfs.lo == lo.t + 1, cfs.hi == hi.t), 'the other filters in order')
        isFlat (cxs, lo.t)
    else:
        # all but the last, then the last one
        prove (cxs is xs, 'the items')
        prove (z3.And (cfs.lo == lo.t, cfs.hi == hi.t - 1), 'the other filters in order')
        isFlat (r, z3.simplify (hi.t - 1))
    cover ('end')
