"""C23: the corpus worker.  Any number of items, any number of texts per item, any number of typing events per text; text J of
item K is followed: it has to be merged exactly once.  Extraction (C22), typing (C01) and statistics (C04 to C08) by contract;
each of them may fail at any time."""
from .api import *
I = z3.IntSort ()
isTrue = z3.Function ('isTrue', I, z3.BoolSort ())
texts = z3.Function ('textsOf', I, I)                   # item → number of its texts
events = z3.Function ('eventsOf', I, I, I)              # item, text → number of typing events
assumption ('apply, mapChars and str.replace by contract (C22); Writer.type by contract (C01); process and update of the statistics by contract (C04–C08); inq.get () returns the items in order')
class Fault (Exception): pass
class WideFault (OSError, KeyError, IndexError, ValueError, TypeError, RuntimeError, ArithmeticError, AssertionError, EOFError): pass
class World:
    """ ghost: r items received, j texts of the current one delivered, t texts delivered altogether, results put, fault raised """
    vcx_walk = True
    def __init__ (self):
        self.r = self.j = self.t = self.puts = 0
        self.K, self.J = CTX.fresh ('K', I), CTX.fresh ('J', I)
        CTX.assume (z3.And (self.K >= 0, self.J >= 0, self.J < texts (self.K)))
    def vcx_inv (self): return [num (self.r) >= 0, num (self.j) >= 0, num (self.t) >= 0]
    def done (self, k, j): return z3.If (z3.Or (self.K < k, z3.And (self.K == k, self.J < j)), z3.IntVal (1), z3.IntVal (0))
def fault (w):
    if CTX.branch (CTX.fresh ('fault', z3.BoolSort ())):
        w['fault'] = (Fault if CTX.branch (CTX.fresh ('other', z3.BoolSort ())) else WideFault) ()
        raise w['fault']
class Item (SymObj):
    vcx_fields = ()
    def __init__ (self, t=None): self.term = t if t is not None else CTX.fresh ('item', I)
    def __bool__ (self): return CTX.branch (isTrue (self.term))         # an empty line is an item, too
class Txt (SymObj):
    """ a text: item, number, what was done to it (1: mapped, 2: line endings converted) """
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, k=None, j=None, bits=-1):
        self.k, self.j, self.bits = k, j, bits
        self.term = CTX.fresh ('text', I)
    def replace (self, a, b, *n):
        if n or a != '\r\n' or b != '\n': raise Unsupported ('another replacement')
        if not simple (): raise Unsupported ('the order of replacements matters')
        return Txt (self.k, self.j, self.bits | 2)
    def __format__ (self, s): return '<text>'
def simple ():
    """ mapping characters and converting line endings commute, and doing it again changes nothing """
    from lulua import text
    m = text.charMap
    return not any (c in '\r\n' or any (x in '\r\n' or x in m for x in v) for c, v in m.items ())
class Inq:
    vcx_walk = True
    def __init__ (self, w): self.w = w
    def get (self, *a, **k):
        w = self.w
        if CTX.mode == 'unroll' and isinstance (w.r, int) and w.r >= 2 or not CTX.branch (CTX.fresh ('more', z3.BoolSort ())): return None
        n = num (w.r)
        CTX.assume (texts (n) >= 0)
        if CTX.mode == 'unroll': CTX.assume (texts (n) <= 2)
        w.r = w.r + 1
        w.j = 0
        return Item (n)
class Texts (VIter):
    vcx_abstract = True
    vcx_fields = ()
    def __init__ (self, g, k): self.g, self.k = g, k
    def vnext (self):
        w = self.g['w']
        fault (self.g)
        j = num (w.j)
        if CTX.branch (z3.simplify (j >= texts (self.k))): return STOP
        w.j, w.t = w.j + 1, w.t + 1
        return Txt (self.k, z3.simplify (j), 0)
class Event (SymObj):
    vcx_fields = ()
    def __init__ (self, wr=None, e=None):
        self.wr, self.e = wr, e
        self.term = CTX.fresh ('event', I)
class Events (VIter):
    vcx_abstract = True
    vcx_fields = ('pos',)
    def __init__ (self, g, wr): self.g, self.wr, self.pos = g, wr, 0
    def vcx_inv (self): return [num (self.pos) >= 0, num (self.pos) <= events (self.wr.k, self.wr.j)]
    def vnext (self):
        fault (self.g)
        p = num (self.pos)
        if CTX.branch (z3.simplify (p >= events (self.wr.k, self.wr.j))): return STOP
        self.pos = self.pos + 1
        return (None, Event (self.wr, z3.simplify (p)))
class WriterStub:
    """ a writer, by contract: typing a text on a fresh one gives the events of that text """
    vcx_walk = True
    def __init__ (self, g, layout): self.g, self.layout, self.k, self.lastCombination = g, layout, None, None
    def type (self, fd):
        if not isinstance (fd, Stream) or not isinstance (fd.text, Txt) or fd.text.k is None: raise Unsupported ('typing of something else')
        prove (self.lastCombination is None, 'every text is typed from a fresh state')
        prove (fd.text.bits == 3, 'what is typed is the text with the character map applied and line endings converted')
        prove (self.layout is self.g['layout'], 'the text is typed on the layout of the worker')
        self.k, self.j = fd.text.k, fd.text.j
        self.lastCombination = 0
        CTX.assume (events (self.k, self.j) >= 0)
        if CTX.mode == 'unroll': CTX.assume (events (self.k, self.j) <= 1)
        return Events (self.g, self)
class Stream:
    def __init__ (self, text=''): self.text = text
class StatStub:
    """ statistics of one kind, by contract """
    vcx_walk = True
    vcx_quiet = ('merged',)
    def __init__ (self, w): self.writer, self.count, self.merged = w, 0, 0
    def process (self, ev):
        if type (self) is self.writer.g['kinds'][0]: fault (self.writer.g)
        if not isinstance (ev, Event) or ev.e is None: raise Unsupported ('unknown event')
        prove (z3.And (z3.BoolVal (ev.wr is self.writer), ev.e == num (self.count)), 'the statistics of a text see its events once and in order')
        self.count = self.count + 1
    def update (self, o):
        g = self.writer.g
        if type (self) is g['kinds'][-1]: fault (g)
        if not isinstance (o, StatStub): raise Unsupported ('merging something else')
        prove (type (o) is type (self), 'statistics are merged into those of the same kind')
        if o.writer.k is None: raise Unsupported ('statistics of nothing are merged')
        k, j = o.writer.k, o.writer.j
        prove (num (o.count) == events (k, j), 'statistics are merged after the whole text was typed')
        w = g['w']
        self.merged = SymNum (z3.simplify (num (self.merged) + z3.If (z3.And (k == w.K, j == w.J), z3.IntVal (1), z3.IntVal (0))))
class Outq:
    vcx_walk = True
    def __init__ (self, w): self.w, self.got = w, []
    def put (self, x, *a, **k):
        # the code catches everything, also that a stand-in cannot do what is asked of it
        if isinstance (x, (AttributeError, TypeError)) and any (n in str (x) for n in STANDINS): raise Unsupported (f'outside what the stand-ins do: {x}')
        self.w.puts = self.w.puts + 1
        self.got.append (x)
STANDINS = ('World', 'Item', 'Txt', 'Inq', 'Texts', 'Event', 'WriterStub', 'Stream', 'StatStub', 'Outq', 'Boards', 'Quiet', 'Sym')
class Boards:
    __hash__ = None
    vcx_fields = ()
    def __getitem__ (self, n): return 'keyboard'
class Quiet:
    def put (self, x, *a, **k): pass
@contextlib.contextmanager
def world (g):
    from lulua import text, stats
    kinds = [type (c.__name__ + 'Stub', (StatStub,), dict (name=c.name)) for c in stats.allStats]
    g['kinds'] = kinds
    def apply (fs, items):
        items = list (it (items))
        if fs is not g['funcs'] or len (items) != 1 or not isinstance (items[0], Item): raise Unsupported ('another extraction')
        return Texts (g, items[0].term)
    def mapChars (t, m):
        if not isinstance (t, Txt) or m is not text.charMap: raise Unsupported ('another mapping')
        if not simple (): raise Unsupported ('the order of replacements matters')
        return Txt (t.k, t.j, t.bits | 1)
    def makeCombined (keyboard):
        g['made'] = [c (WriterStub (g, None)) for c in kinds]
        return VDict ([(c.name, s) for c, s in zip (kinds, g['made'])])
    new = dict (apply=apply, mapChars=mapChars, makeCombined=makeCombined, allStats=VList (kinds), Writer=lambda layout: WriterStub (g, layout), StringIO=Stream, defaultKeyboards=Boards ())
    old = {k: getattr (text, k) for k in new if hasattr (text, k)}
    if set (old) != set (new): raise Unsupported ('the worker is built from other parts')
    try:
        for k, v in new.items (): setattr (text, k, v)
        yield
    finally:
        for k, v in old.items (): setattr (text, k, v)
def go ():
    from lulua import text
    w = World ()
    g = dict (w=w, fault=None, made=[], layout=object (), funcs=object ())
    out = Outq (w)
    CTX.roots['w'] = w
    def preds (snap):
        r, j = num (w.r), num (w.j)
        ts = {'items so far': w.done (r, 0), 'texts so far': w.done (r - 1, j), 'texts before this': w.done (r - 1, j - 1)}
        return {f'{i}: merged {n}': num (s.merged) == t for i, s in enumerate (g['made']) for n, t in ts.items ()}
    CTX.preds = preds
    CTX.compareConstants = False
    with world (g):
        run ('writeWorker', text.writeWorker, g['layout'], g['funcs'], Inq (w), out, Quiet (), False)
    prove (num (w.puts) == 1 and len (out.got) == 1, 'exactly one result is delivered')
    r = out.got[0]
    if g['fault'] is not None:
        prove (r is g['fault'], 'if something fails the result is that exception')
        cover ('fault')
    elif r is None:
        prove (num (w.t) == 0, 'the result is empty only if there was no text')
        cover ('empty')
    elif isinstance (r, BaseException): prove (False, 'an exception is delivered only if something failed', repr (r))
    else:
        if not isinstance (r, VDict): raise Unsupported ('result is no table')
        prove (num (w.t) > 0, 'without any text the result is empty')
        names = {c.name for c in g['kinds']}
        prove ({k for k, v in r.items ()} == names, 'the result has all statistics')
        for c in g['kinds']:
            s = r[c.name]
            prove (type (s) is c, 'statistics under their name')
            prove (num (s.merged) == w.done (num (w.r), 0), 'the result accounts for every text of every item exactly once')
        cover ('result')
FUN = ['text.writeWorker']
harness ('worker', functions=FUN, covers=['fault', 'empty', 'result'], seconds=300) (go)
harness ('few items', functions=FUN, mode='unroll', refute=True, bound='up to 2 items with up to 2 texts of up to 1 event', seconds=60) (go)
