"""C30: derived statistics.  Any number of buttons and combinations with any counts.  Sums over the first k entries of a table
are defined recursively.  The finger (H, F) and the button Q are arbitrary."""
from .seqs import *
I = z3.IntSort ()
F = lambda n, k: z3.Function (n, *[I] * (k + 1))
cnt, tot, hand, finger = F ('count', 1), F ('total', 1), F ('handOf', 1), F ('fingerOf', 1)
ofHand, ofFinger = F ('ofHand', 2), F ('ofFinger', 3)
ccnt, ctot, wcnt, wtot = F ('combinationCount', 1), F ('combinationTotal', 1), F ('wordCount', 1), F ('wordTotal', 1)
lcnt, ltot, ncomb = F ('countFor', 2), F ('totalFor', 2), F ('combinationsFor', 1)
assumption ('C30: pickle and yaml as documented (what is loaded and dumped is followed as objects; the runtime contract goes through the real ones); hands and fingers of buttons as of C18, layout lookups as of C02')
FOLLOWED = z3.Const ('H', I), z3.Const ('F', I)
class Btn (SymObj):
    vcx_fields = ()
    def __init__ (self, i=None):
        self.i = i
        self.term = i if i is not None else CTX.fresh ('button', I)
        self.name = Name (i)
class Name (SymObj):
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, i=None):
        self.i = i
        self.term = i if i is not None else CTX.fresh ('name', I)
class Comb (SymObj):
    """ combination number j for a letter (or of the statistics) """
    vcx_fields = ()
    def __init__ (self, l=None, j=None):
        self.l, self.j = l, j
        self.term = CTX.fresh ('combination', I)
class World:
    vcx_walk = True
    vcx_quiet = ('n', 'nc', 'nw')
    def __init__ (self):
        self.i = self.v = self.c = self.w = self.l = 0
        self.n, self.nc, self.nw = (CTX.fresh (x, I) for x in ('buttons', 'combinations', 'words'))
        CTX.assume (z3.And (self.n >= 0, self.nc >= 0, self.nw >= 0, tot (0) == 0, ctot (0) == 0, wtot (0) == 0))
        h, f = FOLLOWED
        CTX.assume (z3.And (h >= 1, h <= 2, f >= 1, f <= 5, ofHand (1, 0) == 0, ofHand (2, 0) == 0, ofFinger (h, f, 0) == 0))
class Counts:
    """ table of counts """
    vcx_fields = ()
    vcx_container = 'dict'
    __hash__ = None
    def __init__ (self, w, n, key, count, g): self.w, self.n, self.key, self.count, self.g = w, n, key, count, g
    def seq (self, elem):
        s = Seq (self.w, self.g, self.n, elem)
        s.known = {'i': (cnt, tot), 'c': (ccnt, ctot), 'w': (wcnt, wtot)}[self.g]
        return s
    def items (self): return self.seq (lambda i: (self.key (i), self.count (i)))
    def keys (self): return self.seq (self.key)
    def values (self): return self.seq (self.count)
    vcx_iter = lambda self: self.keys ().vcx_iter ()
    def vcx_len (self): return SymNum (self.n)
    def __getitem__ (self, k):
        if isinstance (k, Btn) and self.g == 'i' and k.i is not None: return self.count (k.i)
        if isinstance (k, Comb) and self.g == 'c' and k.l is not None: return forLetter (k.l, k.j)
        raise Unsupported ('another entry')
    def get (self, k, d=None):
        if d != 0: raise Unsupported ('default')
        return self[k]
def button (i):
    i = z3.simplify (i)
    c, (H, Fi) = cnt (i), FOLLOWED
    CTX.assume (z3.And (c > 0, hand (i) >= 1, hand (i) <= 2, finger (i) >= 1, finger (i) <= 5, tot (i + 1) == tot (i) + c, tot (i) >= 0))
    for h in (1, 2): CTX.assume (ofHand (h, i + 1) == ofHand (h, i) + z3.If (hand (i) == h, c, z3.IntVal (0)))
    CTX.assume (ofFinger (H, Fi, i + 1) == ofFinger (H, Fi, i) + z3.If (z3.And (hand (i) == H, finger (i) == Fi), c, z3.IntVal (0)))
    return SymNum (c)
def step (c, t):
    def f (i):
        i = z3.simplify (i)
        CTX.assume (z3.And (c (i) > 0, t (i + 1) == t (i) + c (i), t (i) >= 0))
        return SymNum (c (i))
    return f
def forLetter (l, j):
    CTX.assume (z3.And (lcnt (l, j) >= 0, ltot (l, j + 1) == ltot (l, j) + lcnt (l, j)))
    return SymNum (lcnt (l, j))
class Simple:
    vcx_fields = ()
    def __init__ (self, w):
        self.buttons = Counts (w, w.n, Btn, button, 'i')
        self.combinations = Counts (w, w.nc, lambda j: Comb (), step (ccnt, ctot), 'c')
class Words:
    vcx_fields = ()
    def __init__ (self, w): self.words = Counts (w, w.nw, lambda i: SymStr (), step (wcnt, wtot), 'w')
class Sums (VDefaultDict):
    """ table the code builds, followed at both hands, one finger and one button; other keys (texts) as they are """
    FIELDS = ('l', 'r', 'f', 'q')
    vcx_fields = FIELDS + tuple ('has' + x for x in FIELDS) + ('rest', 'names')
    vcx_quiet = FIELDS + tuple ('has' + x for x in FIELDS) + ('names',)
    def where (self, k):
        from lulua.layout import Direction, FingerType
        if isinstance (k, Direction): return 'l' if k == 1 else 'r'
        if isinstance (k, tuple) and len (k) == 2 and isinstance (k[0], Direction) and isinstance (k[1], FingerType):
            return 'f' if CTX.branch (z3.And (FOLLOWED[0] == int (k[0]), FOLLOWED[1] == int (k[1]))) else None
        if isinstance (k, Name) and k.i is not None: return 'q' if CTX.branch (k.i == Sums.Q) else None
        if isinstance (k, str): return self.rest
        raise Unsupported ('another key')
    def __setitem__ (self, k, v):
        p = self.where (k)
        if isinstance (k, Name): self.names = True
        if p is self.rest: self.rest[k] = v
        elif p is not None:
            setattr (self, p, v)
            setattr (self, 'has' + p, True)
        elif num (v) is None: raise Unsupported ('another value')
    def find (self, k, f):
        p = self.where (k)
        if p is self.rest:
            if k in self.rest.d: return self.rest[k]
            return f ()
        if p is None: return SymNum (CTX.fresh ('other', I))
        if not CTX.branch (tobool (getattr (self, 'has' + p))): return f ()
        return getattr (self, p)
    def __getitem__ (self, k):
        def f ():
            if self.default_factory is None: raise KeyError (k)
            self[k] = v = self.default_factory ()
            return v
        return self.find (k, f)
    def get (self, k, d=None): return self.find (k, lambda: d)
    def setdefault (self, k, d=None):
        def f ():
            self[k] = d
            return d
        return self.find (k, f)
    def vcx_has (self, k):
        # (no button has the name of one of the texts)
        if isinstance (k, Name) and self.names is False: return False
        p = self.where (k)
        if p is self.rest: return k in self.rest.d
        if p is None: return SymBool (CTX.fresh ('has', z3.BoolSort ()))
        return getattr (self, 'has' + p)
    def __contains__ (self, k): return bool (self.vcx_has (k))
    def vcx_dict (self): return self
    copy = vcx_dict
class Stub:
    def __init__ (self, **k): self.__dict__.update (k)
@contextlib.contextmanager
def world (w, **more):
    """ the module with what it reads and writes replaced """
    import lulua.stats as S
    made, out = [], []
    def hook (d):
        if not isinstance (d, VDefaultDict): d.default_factory = None
        elif num (d.default_factory ()) is None or num (d.default_factory ()) is not None and d.default_factory () != 0: raise Unsupported ('another table')
        d.__class__ = Sums
        CTX.newDict, old = None, CTX.newDict
        try: d.rest = VDict ()
        finally: CTX.newDict = old
        d.names = False
        for x in Sums.FIELDS: setattr (d, x, 0), setattr (d, 'has' + x, False)
        made.append (d)
    class Pickle:
        HIGHEST_PROTOCOL = 4
        @staticmethod
        def load (fd): return stats
        @staticmethod
        def dump (x, fd, *a): out.append (x)
    class Yaml:
        @staticmethod
        def safe_load (fd): return fd
        load = safe_load
        @staticmethod
        def dump (x, fd=None, *a, **k): out.append (x)
    stats = dict (simple=Simple (w), words=Words (w))
    any_ = Stub (specialize=lambda kb: more.get ('layout'))
    class Any:
        def __getitem__ (self, k): return any_
    new = dict (pickle=Pickle, yaml=Yaml, sys=Stub (stdin=Stub (buffer=None), stdout=Stub (buffer=None, write=lambda s: None)), defaultKeyboards=Any (), defaultLayouts=Any (), Writer=lambda lay: more.get ('writer'))
    old = {}
    for k, v in new.items ():
        if not hasattr (S, k): raise Unsupported ('made of other parts')
        old[k] = getattr (S, k)
        setattr (S, k, v)
    CTX.dictHook = CTX.newDict = hook
    CTX.listHook = lambda xs: xs if isinstance (xs, Seq) else None
    CTX.roots['w'] = w
    CTX.compareConstants = False
    try: yield S, made, out
    finally:
        CTX.dictHook = CTX.newDict = CTX.listHook = CTX.sumHook = None
        for k, v in old.items (): setattr (S, k, v)
def total (xs, start):
    """ the sum of a sequence whose element at an arbitrary place is a count of one of the tables """
    i = models.viter (xs)
    d = i
    while not isinstance (d, Draw):
        d = getattr (d, 'src', None) or (getattr (d, 'srcs', None) or [None])[0]
        if d is None: raise Unsupported ('sum of something else')
    if d.known is None: raise Unsupported ('sum of something else')
    f, t = d.known
    if must (d.n == 0): return start
    j = CTX.fresh ('any', I)
    CTX.assume (z3.And (j >= 0, z3.Or (d.n == 0, j < d.n)))
    d.pos = SymNum (j)
    v = i.vnext ()
    if v is STOP: return start
    if num (v) is None or not must (num (v) == f (j)): raise Unsupported ('sum of something else')
    return SymNum (z3.simplify (t (d.n))) + start
def sums (w):
    CTX.sumHook = total
    return lambda snap: {'presses so far': tot (num (w.i))}
HAMZA = ['\u0627', '\u0627\u0654', '\u0627\u0655', '\u064a\u0654', '\u0648\u0654']
class LayoutStub:
    """ whole letters are typed or not; their first character is """
    vcx_fields = ()
    def __init__ (self, w): self.w, self.typed = w, {}
    def __call__ (self, s):
        if s not in HAMZA: raise Unsupported ('another text')
        i = HAMZA.index (s)
        if s not in self.typed: self.typed[s] = True if i == 0 else CTX.branch (CTX.fresh (f'typed {i}', z3.BoolSort ()))
        if not self.typed[s]: i, s = {'\u0627': 0}.get (s[0], 7 + i), s[0]
        CTX.assume (z3.And (ltot (i, 0) == 0, ncomb (i) >= 0))
        r = Seq (self.w, 'l', ncomb (i), lambda j: Comb (i, j))
        r.known = (lambda j: lcnt (i, j)), (lambda j: ltot (i, j))
        return s, r
class WriterStub:
    vcx_fields = ()
    def getHandFinger (self, b):
        from lulua.layout import Direction, FingerType
        if not isinstance (b, Btn) or b.i is None: raise Unsupported ('another button')
        h = Direction.LEFT if CTX.branch (hand (b.i) == 1) else Direction.RIGHT
        for f in list (FingerType)[:-1]:
            if CTX.branch (finger (b.i) == int (f)): return h, f
        return h, list (FingerType)[-1]
@harness ('layout', functions=['stats.layoutstats'], covers=['end'], seconds=240)
def _ ():
    from lulua.layout import Direction
    w = World ()
    lay = LayoutStub (w)
    Sums.Q = z3.IntVal (-1)
    with world (w, layout=lay, writer=WriterStub ()) as (S, made, out):
        CTX.terms = sums (w)
        def preds (snap):
            r = {}
            k = num (w.i)
            for i, d in enumerate (made):
                for x, t in (('l', ofHand (1, k)), ('r', ofHand (2, k)), ('f', ofFinger (*FOLLOWED, k))):
                    r[f'table {i}: {x}'] = num (getattr (d, x)) == t
                    r[f'table {i}: no {x}'] = z3.Or (tobool (getattr (d, 'has' + x)), num (getattr (d, x)) == 0)
            r['lemma: hands'] = ofHand (1, k) + ofHand (2, k) == tot (k)
            return r
        CTX.preds = preds
        CTX.assume (z3.And (tot (w.n) > 0, ctot (w.nc) > 0, ltot (0, ncomb (0)) > 0))
        for i in range (5): CTX.assume (ltot (i, ncomb (i)) >= 0)
        run ('layoutstats', S.layoutstats, Stub (keyboard='k', layout='some layout'))
    if len (out) != 1: raise Unsupported ('written in another way')
    d = out[0]
    d = d.rest if isinstance (d, Sums) else d
    hands, fingers = d['hands'], d['fingers']
    if not isinstance (hands, Sums) or not isinstance (fingers, Sums): raise Unsupported ('other tables')
    T, C = tot (w.n), z3.ToReal (ctot (w.nc))
    val = lambda t, x: num (getattr (t, x))
    prove (num (d['buttonPresses']) == T, 'button presses is the total of the counts')
    prove (And (val (hands, 'l') == ofHand (1, w.n), val (hands, 'r') == ofHand (2, w.n)), 'every press is attributed to the hand of the button')
    prove (val (hands, 'l') + val (hands, 'r') == T, 'the hands sum up to the total')
    prove (val (fingers, 'f') == ofFinger (*FOLLOWED, w.n), 'every press is attributed to the finger of the button')
    prove (num (d['asymmetry']) * z3.ToReal (T) == z3.ToReal (ofHand (1, w.n) - ofHand (2, w.n)), 'asymmetry is the difference of the shares of the hands')
    of = lambda i: z3.ToReal (ltot (i, ncomb (i))) if lay.typed.get (HAMZA[i]) else z3.RealVal (0)
    prove (num (d['hamzaImpact']) * C == of (1) + of (2) + of (3) + of (4), 'hamza impact is the share of the letters with hamza')
    x = of (1) + of (2)
    prove (num (d['hamzaOnAlef']) * (x + of (0)) == x, 'hamza on alef is its share of the alefs')
    prove (d['layout'] == 'some layout', 'the layout is named')
    cover ('end')
@harness ('fingers sum up', functions=[], covers=['end'])
def _ ():
    """ lemma over the definitions: the sums of the ten fingers are those of the hands and the total """
    k = CTX.fresh ('k', I)
    total = lambda k: z3.Sum (*[ofFinger (h, f, k) for h in (1, 2) for f in range (1, 6)])
    CTX.assume (z3.And (hand (k) >= 1, hand (k) <= 2, finger (k) >= 1, finger (k) <= 5, tot (k + 1) == tot (k) + cnt (k), tot (0) == 0))
    for h in (1, 2):
        for f in range (1, 6): CTX.assume (z3.And (ofFinger (h, f, 0) == 0, ofFinger (h, f, k + 1) == ofFinger (h, f, k) + z3.If (z3.And (hand (k) == h, finger (k) == f), cnt (k), z3.IntVal (0))))
    prove (total (z3.IntVal (0)) == tot (0), 'nothing at first')
    prove (z3.Implies (total (k) == tot (k), total (k + 1) == tot (k + 1)), 'every press is one of one finger')
    cover ('end')
@harness ('heat map', functions=['stats.keyHeatmap'], covers=['end'], seconds=120)
def _ ():
    w = World ()
    Sums.Q = CTX.fresh ('Q', I)
    CTX.assume (z3.And (Sums.Q >= 0, Sums.Q < w.n))
    with world (w, layout=LayoutStub (w), writer=WriterStub ()) as (S, made, out):
        CTX.terms = sums (w)
        def preds (snap):
            r = {}
            for i, d in enumerate (made):
                r[f'table {i}: there'] = tobool (d.hasq) == (Sums.Q < num (w.i))
                r[f'table {i}: count'] = z3.Implies (tobool (d.hasq), num (d.q) == cnt (Sums.Q))
            return r
        CTX.preds = preds
        run ('keyHeatmap', S.keyHeatmap, Stub (keyboard='k', layout='some layout'))
    if len (out) != 1: raise Unsupported ('written in another way')
    d = out[0].rest if isinstance (out[0], Sums) else out[0]
    prove (num (d['total']) == tot (w.n), 'the total is that of the counts')
    b = d['buttons']
    if not isinstance (b, Sums): raise Unsupported ('another table')
    prove (And (b.hasq, num (b.q) == cnt (Sums.Q)), 'every button has its count')
    cover ('end')
@harness ('corpus', functions=['stats.corpusStats'], covers=['end'], seconds=60)
def _ ():
    w = World ()
    Sums.Q = z3.IntVal (-1)
    keep, source = object (), object ()
    meta = VDict ({'name': keep, 'source': source, 'stats': object ()})
    with world (w) as (S, made, out):
        CTX.terms = sums (w)
        run ('corpusStats', S.corpusStats, Stub (metadata=meta, keyboard='k', layout='some layout'))
    if len (out) != 1: raise Unsupported ('written in another way')
    d = out[0].rest if isinstance (out[0], Sums) else out[0]
    prove (set (d.d) == {'name', 'source', 'stats'} and d['name'] is keep and d['source'] is source, 'the other data of the corpus is kept')
    s = d['stats']
    s = s.rest if isinstance (s, Sums) else s
    if set (s.d) != {'characters', 'words'}: raise Unsupported ('other statistics')
    prove (num (s['characters']) == ctot (w.nc), 'characters is the number of combinations')
    prove (num (s['words']) == wtot (w.nw), 'words is the number of words')
    cover ('end')
