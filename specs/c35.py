"""C35: the Android word list.  Any number of words with any counts.  inOrder (p): count of the word at place p once sorted; the
share of a word is its count by the sum of all counts."""
from .seqs import *
I, RS = z3.IntSort (), z3.RealSort ()
cnt, tot, inOrder = (z3.Function (n, I, I) for n in ('countOf', 'totalOf', 'countInOrder'))
ln = z3.Function ('log', RS, RS)
assumption ('C35: pickle as documented (the runtime contract goes through the real one); sorted (standard library) by contract: the same elements, ordered by the key; logarithms are an unknown function with log_b (x) = log (x) / log (b), log (b) > 0 for the base and log (x) <= 0 for 0 < x <= 1; counts and shares are mathematical numbers')
class Word (SymObj):
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, p=None):
        self.p = p
        self.term = CTX.fresh ('word', I)
class World:
    vcx_walk = True
    vcx_quiet = ('n',)
    def __init__ (self):
        self.i = self.p = self.printed = 0
        self.n = CTX.fresh ('words', I)
        CTX.assume (z3.And (self.n >= 0, tot (0) == 0))
    def word (self, i):
        i = z3.simplify (i)
        CTX.assume (z3.And (cnt (i) > 0, tot (i + 1) == tot (i) + cnt (i), tot (i) >= 0))
        return SymNum (cnt (i))
    def place (self, p):
        p = z3.simplify (p)
        # a permutation of the counts: each of them is positive and at most their sum
        CTX.assume (z3.And (inOrder (p) > 0, inOrder (p) <= tot (self.n)))
        return Word (p), SymNum (inOrder (p))
class Counts:
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w): self.w = w
    def seq (self, elem):
        s = Seq (self.w, 'i', self.w.n, elem)
        s.known = cnt, tot
        return s
    def items (self):
        s = self.seq (lambda i: (Word (), self.w.word (i)))
        s.pairs = True
        return s
    def values (self): return self.seq (self.w.word)
    def keys (self): raise Unsupported ('keys')
    def vcx_iter (self): raise Unsupported ('keys')
    def vcx_len (self): return SymNum (self.w.n)
    def __bool__ (self): return CTX.branch (self.w.n > 0)
    def __getitem__ (self, k):
        if isinstance (k, Word) and k.p is not None: return SymNum (inOrder (k.p))
        raise Unsupported ('another entry')
    def get (self, k, d=None): return self[k]
class Stub:
    def __init__ (self, **k): self.__dict__.update (k)
def asReal (x):
    x = num (x)
    if x is None: raise Unsupported ('logarithm of something else')
    return x if x.is_real () else z3.ToReal (x)
class Math:
    @staticmethod
    def log (x, b=None):
        x = asReal (x)
        CTX.assume (z3.Implies (z3.And (x > 0, x <= 1), ln (x) <= 0))
        prove (x > 0, 'logarithms of positive numbers only')
        if b is None:
            if must (x > 1): CTX.assume (ln (x) > 0)
            return SymNum (ln (x))
        b = asReal (b)
        if not must (b > 1): raise Unsupported ('another base')
        CTX.assume (ln (b) > 0)
        return SymNum (ln (x) / ln (b))
def total (xs, start):
    i = d = models.viter (xs)
    while not isinstance (d, Draw):
        d = getattr (d, 'src', None) or (getattr (d, 'srcs', None) or [None])[0]
        if d is None: raise Unsupported ('sum of something else')
    if d.g != 'i' or not must (num (d.pos) == 0): raise Unsupported ('sum of something else')
    if must (d.n == 0): return start
    j = CTX.fresh ('any', I)
    CTX.assume (z3.And (j >= 0, z3.Or (d.n == 0, j < d.n)))
    d.pos = SymNum (j)
    v = i.vnext ()
    if v is STOP: return start
    if num (v) is None or not must (num (v) == cnt (j)): raise Unsupported ('sum of something else')
    return SymNum (z3.simplify (tot (d.n))) + start
@harness ('word list', functions=['stats.latinImeDict'], covers=['end', 'word'], seconds=120)
def _ ():
    import lulua.stats as S
    w = World ()
    base = num (1.15)
    state = dict (ordered=False)
    def order (xs, key, reverse):
        d = xs if isinstance (xs, Seq) else models.viter (xs)
        if not isinstance (d, (Seq, Draw)) or d.g != 'i' or state['ordered']: raise Unsupported ('sorted in another way')
        if isinstance (d, Draw) and not must (num (d.pos) == 0): raise Unsupported ('sorted in another way')
        state['ordered'] = True
        i, j = CTX.fresh ('i', I), CTX.fresh ('j', I)
        x, y = (Word (), w.word (i)), (Word (), w.word (j))
        if key is None: raise Unsupported ('sorted in another way')
        a, b = key (x), key (y)
        if isinstance (a, tuple) and isinstance (b, tuple) and a: a, b = a[0], b[0]
        a, b = num (a), num (b)
        if a is None or b is None: raise Unsupported ('sorted in another way')
        prove (z3.Implies (cnt (i) > cnt (j), a > b if bool (reverse) else a < b), 'more frequent words come first')
        return Seq (w, 'p', w.n, w.place)
    def show (*a, **k):
        if k or len (a) != 1: raise Unsupported ('printed in another way')
        a = a[0]
        if isinstance (a, str):
            if 'word=' in a: raise Unsupported ('another word')
            prove (num (w.printed) == 0, 'the header comes before the words')
            return
        ps = [p for p in getattr (a, 'parts', ())]
        if len (ps) != 4 or ps[0] != ' word=' or ps[2] != ',f=': raise Unsupported ('printed in another way')
        (x, *xc), (f, *fc) = ps[1], ps[3]
        if xc != [-1, ''] or fc != [-1, ''] or not isinstance (x, Word) or x.p is None or num (f) is None: raise Unsupported ('printed in another way')
        f = num (f)
        if not f.is_int (): raise Unsupported ('printed in another way')
        cover ('word')
        prove (x.p == num (w.printed), 'every word is listed once, in this order')
        share = z3.ToReal (inOrder (x.p)) / z3.ToReal (tot (w.n))
        exact = 255 + ln (share) / ln (base)
        CTX.assume (z3.And (ln (base) > 0, share > 0, share <= 1, ln (share) <= 0, ln (share) / ln (base) <= 0))
        prove (z3.And (2 * (z3.ToReal (f) - exact) <= 1, 2 * (exact - z3.ToReal (f)) <= 1), 'the frequency class is the rounded logarithm of the share')
        prove (f <= 255, 'the frequency class is at most 255')
        w.printed = w.printed + 1
    stats = dict (words=Stub (words=Counts (w)))
    new = dict (pickle=Stub (load=lambda fd: stats), sys=Stub (stdin=Stub (buffer=None), stdout=Stub (buffer=None)), math=Math, time=Stub (time=lambda: 12.5))
    old = {}
    for k, v in new.items ():
        if not hasattr (S, k): raise Unsupported ('made of other parts')
        old[k] = getattr (S, k)
        setattr (S, k, v)
    S.print = show
    CTX.sortHook, CTX.sumHook = order, total
    CTX.listHook = lambda xs: xs if isinstance (xs, Seq) else None
    CTX.roots['w'] = w
    CTX.compareConstants = False
    CTX.terms = lambda snap: {'words so far': tot (num (w.i))}
    CTX.preds = lambda snap: {}
    try: run ('latinImeDict', S.latinImeDict, Stub ())
    finally:
        CTX.sortHook = CTX.sumHook = CTX.listHook = None
        del S.print
        for k, v in old.items (): setattr (S, k, v)
    prove (num (w.printed) == w.n, 'every word is listed')
    cover ('end')
