"""C31: analysis of triads.  Any number of triads with any weights and efforts.  The text triad Q is arbitrary; wOf/eOf: weight and
weighted effort of Q within the first k triads; SW (c): weight of the c heaviest bins."""
from .seqs import *
I, RS = z3.IntSort (), z3.RealSort ()
cls, wt, tot, wOf = (z3.Function (n, I, I) for n in ('textsOf', 'weightOf', 'totalOf', 'weightOfQ'))
ef, we, eOf = (z3.Function (n, I, RS) for n in ('effortOf', 'weightedEffortOf', 'weightedEffortOfQ'))
sw, SW = z3.Function ('weightOfBin', I, I), z3.Function ('weightOfFirstBins', I, I)
em = z3.Function ('effortOfBin', I, RS)
lw, le = z3.Function ('weightListed', I, I), z3.Function ('effortListed', I, RS)
Q = z3.Const ('Q', I)
assumption ('C31: pickle as documented (the runtime contract goes through the real one); efforts as of C03, layout lookups as of C02, limit as of C22; sorted (standard library) by contract: the same elements, ordered by the key; weights and efforts are mathematical numbers')
def need (*c):
    if not must (z3.And (*c)): raise Unsupported ('built in another way')
class Part (SymObj):
    """ combination k of triad i, or its text (of a triad, a bin or a listed bin) """
    vcx_fields = ()
    def __init__ (self, of=None, i=None, k=None):
        self.of, self.i, self.k = of, i, k
        self.term = CTX.fresh ('part', I)
        if of == 'combination': self.modifier = self
class Joined (SymObj):
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, parts=None):
        self.parts = parts
        self.term = CTX.fresh ('joined', I)
def whole (x, of):
    """ number of the triad these are the parts of """
    x = tuple (it (x)) if isinstance (x, (tuple, VList, list)) else ()
    if len (x) != 3 or not all (isinstance (p, Part) and p.of == of and p.i is x[0].i and p.k == k for k, p in enumerate (x)): raise Unsupported ('made of other parts')
    return x[0].i
def parts (of, i): return tuple (Part (of, i, k) for k in range (3))
class World:
    vcx_walk = True
    vcx_quiet = ('n', 'm', 'cut')
    def __init__ (self):
        self.i = self.b = self.j = self.printed = 0
        self.n, self.m, self.J = (CTX.fresh (x, I) for x in ('triads', 'bins', 'J'))
        self.cut = CTX.fresh ('cutoff', RS)
        CTX.assume (z3.And (self.n >= 0, self.m >= 0, (self.m == 0) == (self.n == 0), tot (0) == 0, wOf (0) == 0, eOf (0) == 0, SW (0) == 0, SW (self.m) == tot (self.n)))
        CTX.assume (z3.And (self.J >= 0, self.J < self.n, cls (self.J) == Q))
        self.listed = None
    def triad (self, i):
        i = z3.simplify (i)
        q = cls (i) == Q
        CTX.assume (z3.And (wt (i) > 0, ef (i) >= 0, we (i) == wt (i) * ef (i), tot (i + 1) == tot (i) + wt (i), tot (i) >= 0, wOf (i) >= 0, eOf (i) >= 0))
        CTX.assume (z3.And (wOf (i + 1) == wOf (i) + z3.If (q, wt (i), z3.IntVal (0)), eOf (i + 1) == eOf (i) + z3.If (q, we (i), z3.RealVal (0))))
        return parts ('combination', i), SymNum (wt (i))
    def bin (self, p):
        p = z3.simplify (p)
        CTX.assume (z3.And (sw (p) > 0, SW (p) >= 0, SW (p + 1) == SW (p) + sw (p), em (p) >= 0))
        return Bin ('bin', p, SymNum (sw (p)), Mean (em (p)))
    def shown (self, j):
        j = z3.simplify (j)
        return Bin ('listed', j, SymNum (lw (j)), Mean (le (j)))
class Triads:
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w): self.w = w
    def items (self): return Seq (self.w, 'i', self.w.n, self.w.triad)
    def keys (self): return Seq (self.w, 'i', self.w.n, lambda i: self.w.triad (i)[0])
    def values (self): return Seq (self.w, 'i', self.w.n, lambda i: self.w.triad (i)[1])
    vcx_iter = lambda self: self.keys ().vcx_iter ()
    def vcx_len (self): return SymNum (self.w.n)
    def __getitem__ (self, k): return self.w.triad (whole (k, 'combination'))[1]
class Effort:
    """ contract of the effort accumulator: the weighted mean """
    vcx_fields = ('s', 'w')
    __hash__ = None
    def __init__ (self, model=None, writer=None):
        if model != 'the model' or writer != 'the writer': raise Unsupported ('another model')
        self.s, self.w = SymNum (z3.RealVal (0)), 0
    def addTriad (self, triad, weight):
        i, v = whole (triad, 'combination'), num (weight)
        self.s = SymNum (num (self.s) + (we (i) if must (v == wt (i)) else z3.ToReal (v) * ef (i)))
        self.w = self.w + weight
    @property
    def effort (self):
        if CTX.branch (num (self.w) == 0): return 0
        return SymNum (num (self.s) / z3.ToReal (num (self.w)))
class Mean:
    vcx_fields = ()
    __hash__ = None
    def __init__ (self, t): self.effort = SymNum (t)
class Bin:
    vcx_fields = ('weight', 'named', 'effort')
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, of, i, weight, effort):
        self.of, self.i, self.weight, self.effort = of, i, weight, effort
        self.named = of != 'followed'
    def __getitem__ (self, k):
        if k == 'weight': return self.weight
        if k == 'effort': return self.effort
        if k == 'textTriad' and self.of in ('bin', 'listed'): return parts (self.of, self.i)
        raise Unsupported ('another entry')
    def __setitem__ (self, k, v):
        if self.of in ('bin', 'listed'): raise Unsupported ('change of a bin')
        if k == 'weight': self.weight = v
        elif k == 'effort':
            if not isinstance (v, Effort): raise Unsupported ('another effort')
            self.effort.s, self.effort.w = v.s, v.w
        elif k == 'textTriad':
            i = whole (v, 'text')
            if self.of == 'followed':
                prove (cls (i) == Q, 'a bin carries the texts of its triads')
                self.named = True
        elif k != 'layers': raise Unsupported ('another entry')
class Gone (VDict):
    def __getattribute__ (self, k): raise Unsupported ('entry kept twice')
class Bins (VDefaultDict):
    """ table the code builds, followed at one text triad """
    vcx_fields = ('has', 'bin')
    def start (self, w):
        self.w, self.has = w, False
        self.bin = Bin ('followed', None, 0, Effort ('the model', 'the writer'))
    def __setitem__ (self, k, d):
        i = whole (k, 'text')
        if not isinstance (d, VDict) or set (d.d) - {'weight', 'effort', 'textTriad', 'layers'} or not {'weight', 'effort'} <= set (d.d): raise Unsupported ('another entry')
        if CTX.branch (cls (i) == Q):
            self.has = True
            for x in ('weight', 'effort'): self.bin[x] = d[x]
            self.bin.named = False
            if d.d.get ('textTriad') is not None: self.bin['textTriad'] = d['textTriad']
        d.__class__ = Gone
    def find (self, k, f):
        i = whole (k, 'text')
        if not CTX.branch (cls (i) == Q):
            e = Effort ('the model', 'the writer')
            e.s, e.w = SymNum (CTX.fresh ('other', RS)), SymNum (CTX.fresh ('other', I))
            return Bin ('other', None, SymNum (CTX.fresh ('other', I)), e)
        if not CTX.branch (tobool (self.has)): return f ()
        return self.bin
    def __getitem__ (self, k):
        def f ():
            if self.default_factory is None: raise KeyError (k)
            self[k] = self.default_factory ()
            return self.bin
        return self.find (k, f)
    def get (self, k, d=None): return self.find (k, lambda: d)
    def setdefault (self, k, d=None):
        def f ():
            self[k] = d
            return self.bin
        return self.find (k, f)
    def vcx_has (self, k):
        if CTX.branch (cls (whole (k, 'text')) == Q): return self.has
        return SymBool (CTX.fresh ('has', z3.BoolSort ()))
    def __contains__ (self, k): return bool (self.vcx_has (k))
    def vcx_len (self): return SymNum (self.w.m)
    def checked (self):
        w, b = self.w, self.bin
        if not must (num (w.i) == w.n): raise Unsupported ('triads not gone through')
        prove (self.has, 'every triad is in a bin')
        prove (num (b.weight) == wOf (w.n), 'the weight of a bin is the sum of the weights of its triads')
        prove (And (num (b.effort.s) == eOf (w.n), num (b.effort.w) == wOf (w.n)), 'the effort of a bin is the weighted mean of its triads')
        prove (b.named, 'a bin is named by its texts')
    def values (self):
        self.checked ()
        return Values (self.w, False)
    def items (self):
        self.checked ()
        return Values (self.w, True)
    def vcx_iter (self): raise Unsupported ('keys')
class Values (Seq):
    """ the bins, heaviest first once sorted """
    def __init__ (self, w, pairs, ordered=False):
        def elem (p):
            if not self.ordered: raise Unsupported ('unsorted bins')
            return self.form (w.bin (p))
        Seq.__init__ (self, w, 'b', w.m, elem)
        self.pairs, self.ordered = pairs, ordered
    def form (self, b): return (parts (b.of, b.i), b) if self.pairs else b
    def order (self, key, reverse):
        w = self.w
        CTX.assume (w.m > 0)
        i, j = CTX.fresh ('i', I), CTX.fresh ('j', I)
        x, y = w.bin (i), w.bin (j)
        if key is None: raise Unsupported ('sorted in another way')
        a, b = num (key (self.form (x))), num (key (self.form (y)))
        if a is None or b is None: raise Unsupported ('sorted in another way')
        first = a > b if bool (reverse) else a < b
        prove (z3.Implies (sw (i) > sw (j), first), 'the heaviest bins come first')
        self.ordered = True
        return self
    def sort (self, key=None, reverse=False): self.order (key, reverse)
class Top:
    """ list of the first bins """
    vcx_fields = ('length',)
    vcx_container = 'list'
    __hash__ = None
    def start (self, w): self.w, self.length = w, 0
    def append (self, x):
        if not isinstance (x, Bin) or x.of != 'bin': raise Unsupported ('list of something else')
        prove (x.i == num (self.length), 'the heaviest bins are listed')
        self.length = self.length + 1
    def vcx_len (self): return self.length
    def __bool__ (self): return CTX.branch (num (self.length) > 0)
    def seq (self):
        s = Seq (self.w, 'j', num (self.length), self.w.bin)
        s.top = self
        return s
    def vcx_iter (self): return self.seq ().vcx_iter ()
    def copy (self): raise Unsupported ('copy')
class Math:
    @staticmethod
    def pow (x, y):
        if y != 2: raise Unsupported ('another power')
        return x * x
@harness ('triads', functions=['plot.triadfreq'], covers=['end'], seconds=240)
def _ ():
    import lulua.plot as S
    w = World ()
    lim = CTX.fresh ('limit', I)
    made, tops = [], []
    class Stub:
        def __init__ (self, **k): self.__dict__.update (k)
    class Args:
        # options are chosen when asked for
        layout, cutoff, limit = 'some layout', SymNum (w.cut), SymNum (lim)
        chosen = {}
        @property
        def sort (self):
            if 'sort' not in self.chosen: self.chosen['sort'] = 'weight' if CTX.branch (CTX.fresh ('by weight', z3.BoolSort ())) else 'effort' if CTX.branch (CTX.fresh ('by effort', z3.BoolSort ())) else 'combined'
            return self.chosen['sort']
        @property
        def reverse (self):
            if 'reverse' not in self.chosen: self.chosen['reverse'] = CTX.branch (CTX.fresh ('reverse', z3.BoolSort ()))
            return self.chosen['reverse']
    args = Args ()
    def asList (d):
        d.__class__ = Top
        d.start (w)
        tops.append (d)
    def asDict (d):
        if not isinstance (d, VDefaultDict): d.default_factory = None
        elif not isinstance (d.default_factory (), VDict): raise Unsupported ('another table')
        d.__class__ = Bins
        d.start (w)
        made.append (d)
    def topOf (xs):
        if isinstance (xs, Top): return xs
        if isinstance (xs, Draw) and tops and xs.g == 'j' and must (num (xs.pos) == 0) and len (tops) == 1: return tops[0]
    def sortHook (xs, key, reverse):
        if isinstance (xs, Values): return xs.order (key, reverse)
        t = topOf (xs)
        if t is None: raise Unsupported ('sorted in another way')
        c = num (t.length)
        goal = z3.ToReal (tot (w.n)) * w.cut
        prove (z3.Or (c == w.m, z3.ToReal (SW (c)) >= goal), 'the listed bins reach the share')
        prove (z3.Or (c == 0, z3.ToReal (SW (c - 1)) < goal), 'without the lightest of them they fall short of it')
        prove (bool (reverse) == args.reverse, 'listed in the requested direction')
        i, j = CTX.fresh ('i', I), CTX.fresh ('j', I)
        CTX.assume (tot (w.n) > 0)
        x, y = w.bin (i), w.bin (j)
        a, b = num (key (x)), num (key (y))
        if a is None or b is None: raise Unsupported ('sorted in another way')
        ref = dict (weight=lambda i: sw (i), effort=lambda i: em (i), combined=lambda i: z3.ToReal (sw (i)) / z3.ToReal (tot (w.n)) * (em (i) * em (i)))[args.sort]
        if not must (z3.And (a == ref (i), b == ref (j))): prove (z3.Implies (ref (i) < ref (j), a < b), 'listed in the requested order')
        else: prove (True, 'listed in the requested order')
        w.listed = z3.simplify (c)
        return Seq (w, 'j', w.listed, w.shown)
    def limit (l, n):
        if not isinstance (l, Seq) or l.g != 'j': raise Unsupported ('limit of something else')
        if CTX.branch (num (n) <= 0): return l[:0]
        return l[:n]
    def show (*a, **k):
        if k or len (a) != 3: raise Unsupported ('printed in another way')
        t, weight, effort = a
        j = num (w.printed)
        if not isinstance (t, Joined) or num (weight) is None or num (effort) is None: raise Unsupported ('printed in another way')
        if whole (t.parts, 'shown') is None: raise Unsupported ('printed in another way')
        i = t.parts[0].i
        prove (i == j, 'bins are listed in this order')
        prove (num (weight) == lw (i), 'a bin is listed with its weight')
        prove (num (effort) == le (i), 'a bin is listed with its effort')
        w.printed = w.printed + 1
    def display (x):
        if not isinstance (x, Part) or x.of != 'listed': raise Unsupported ('text of something else')
        return Part ('shown', x.i, x.k)
    def join (sep, i):
        if sep != '': raise Unsupported ('joined in another way')
        return Joined (tuple (it (i)))
    class Any:
        def __init__ (self, x): self.x = x
        def __getitem__ (self, k): return self.x
    class Models:
        def __getitem__ (self, k): return 'the model' if k == 'mod01' else 'another model'
    lay = Stub (getText=lambda c: Part ('text', c.i, c.k), modifierToLayer=lambda m: (Part ('layer', m.i, m.k), None))
    stats = dict (triads=Stub (triads=Triads (w)))
    new = dict (pickle=Stub (load=lambda fd: stats), sys=Stub (stdin=Stub (buffer=None), stdout=Stub (buffer=None)), defaultKeyboards=Any ('the keyboard'), defaultLayouts=Any (Stub (specialize=lambda kb: lay)), Writer=lambda l: 'the writer', Carpalx=Effort, models=Models (), limit=limit, displayText=display, math=Math, logging=Stub (info=lambda *a: None, debug=lambda *a: None))
    old = {}
    for k, v in new.items ():
        if not hasattr (S, k): raise Unsupported ('made of other parts')
        old[k] = getattr (S, k)
        setattr (S, k, v)
    S.print = show
    CTX.dictHook = CTX.newDict = asDict
    CTX.newList = asList
    CTX.sortHook, CTX.joinHook = sortHook, join
    CTX.listHook = lambda xs: xs if isinstance (xs, (Seq, Top)) else None
    CTX.roots['w'] = w
    CTX.compareConstants = False
    CTX.terms = lambda snap: {'weight so far': tot (num (w.i)), 'weight of the first bins': SW (num (w.b))}
    def preds (snap):
        r, k = {}, num (w.i)
        for n, d in enumerate (made):
            b, h = d.bin, tobool (d.has)
            r[f'bins {n}: weight'] = z3.Implies (h, num (b.weight) == wOf (k))
            r[f'bins {n}: effort'] = z3.Implies (h, z3.And (num (b.effort.s) == eOf (k), num (b.effort.w) == wOf (k)))
            r[f'bins {n}: there'] = z3.Or (h, z3.And (wOf (k) == 0, eOf (k) == 0))
            r[f'bins {n}: followed'] = z3.Implies (w.J < k, h)
            r[f'bins {n}: named'] = z3.Implies (h, tobool (b.named))
        goal = z3.ToReal (tot (w.n)) * w.cut
        for n, d in enumerate (tops):
            c, k = num (d.length), num (w.b)
            r[f'top {n}: all'] = z3.Or (c == k, z3.And (c < k, z3.ToReal (SW (c)) >= goal))
            r[f'top {n}: needed'] = z3.Or (c == 0, z3.ToReal (SW (c - 1)) < goal)
            for p, x in snap.items ():
                if x[0] == 'atom' and loops.isNum (x[1]) and p[0] not in ('w',): r[f'top {n}: {p} is its weight'] = num (x[1]) == SW (c)
        return r
    CTX.preds = preds
    try: run ('triadfreq', S.triadfreq, args)
    finally:
        CTX.dictHook = CTX.newDict = CTX.newList = CTX.sortHook = CTX.joinHook = CTX.listHook = None
        del S.print
        for k, v in old.items (): setattr (S, k, v)
    if w.listed is None: raise Unsupported ('listed in another way')
    prove (num (w.printed) == z3.If (z3.And (lim > 0, lim < w.listed), lim, w.listed), 'as many as requested are listed')
    cover ('end')
