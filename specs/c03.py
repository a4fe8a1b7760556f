"""C03: the combination that is used.  Any number of alternatives, each with any number of modifiers and buttons (sets of unknown
contents); the hands are those of the standard assignment, which has its own harness."""
from .api import *
I = z3.IntSort ()
size = z3.Function ('size', I, I)               # of a set of buttons
member = z3.Function ('member', I, I, I)        # its buttons, in the order of its iteration
lean = z3.Function ('lean', I, I, I)            # left minus right among the first k of them
LIMIT = 128
assumption ('combinations have fewer than 128 keys each (the standard keyboard has 66)')
def side (t):
    CTX.assume (z3.Or (hand (t) == 1, hand (t) == 2))
    return z3.If (hand (t) == 1, z3.IntVal (1), z3.IntVal (-1))
class SetIter (VIter):
    vcx_fields = ('pos', 'acc')
    vcx_abstract = True
    def __init__ (self, s):
        self.s, self.pos, self.acc = s, 0, 0
        CTX.assume (lean (s, 0) == 0)
    def vcx_inv (self):
        p, a = num (self.pos), num (self.acc)
        return [z3.And (p >= 0, p <= size (self.s)), z3.And (a == lean (self.s, p), a <= p, a >= -p)]
    def vnext (self):
        p = num (self.pos)
        if CTX.branch (z3.simplify (p >= size (self.s))): return STOP
        if CTX.mode == 'unroll' and z3.is_int_value (z3.simplify (p)) and z3.simplify (p).as_long () >= CTX.unroll: raise PathEnd ()
        t = member (self.s, p)
        CTX.assume (z3.And (lean (self.s, p + 1) == lean (self.s, p) + side (t), t >= 0))
        self.pos, self.acc = self.pos + 1, SymNum (z3.simplify (num (self.acc) + side (t)))
        return SymButton (i=SymNum (t))
class ButtonSet:
    """ set of buttons, unknown size and contents """
    __hash__ = None
    vcx_fields = ()
    def __init__ (self, s):
        self.s = z3.simplify (s)
        CTX.assume (z3.And (size (self.s) >= 0, lean (self.s, 0) == 0))
    def vcx_len (self): return SymNum (size (self.s))
    def __bool__ (self): return CTX.branch (size (self.s) > 0)
    def vcx_iter (self): return SetIter (self.s)
    def __iter__ (self): return SetIter (self.s)
    def vcx_isinstance (self, c): return True if c is frozenset or c is VFrozenSet or c is models.TFrozenSet else None
    def total (self): return lean (self.s, size (self.s))
def combination (k):
    from lulua.layout import ButtonCombination
    if set (ButtonCombination.__slots__) - {'modifier', 'buttons', '_hash'}: raise Unsupported ('more state than modifier and buttons')
    c = object.__new__ (indexed (ButtonCombination))
    c.modifier, c.buttons, c._hash = ButtonSet (2*k), ButtonSet (2*k + 1), POISON
    c.index = SymNum (k)
    CTX.assume (size (c.modifier.s) + size (c.buttons.s) < LIMIT)
    return c
_ix = {}
def indexed (cls):
    if cls not in _ix: _ix[cls] = type ('Indexed' + cls.__name__, (cls,), dict (__slots__=('index',), __module__=cls.__module__))
    return _ix[cls]
class Hands:
    """ the table of the standard assignment by its contract: every key has a hand """
    __hash__ = None
    vcx_fields = ()
    def __getitem__ (self, n):
        from lulua import layout
        t = idOf (n.term)
        return (layout.LEFT if CTX.branch (z3.Or (hand (t) == 1)) else layout.RIGHT, layout.INDEX)
    def get (self, n, d=None): return self[n]
    def vcx_contains (self, n): return True
@contextlib.contextmanager
def hands ():
    from lulua import writer
    if not hasattr (writer, 'defaultFingermap'): raise Unsupported ('no table of hands')
    o = writer.defaultFingermap
    writer.defaultFingermap = Hands ()
    try: yield
    finally: writer.defaultFingermap = o
def z3abs (t): return z3.If (t >= 0, t, -t)
def score (c, prev):
    """ what is to be minimal """
    m, b = c.modifier, c.buttons
    n = size (m.s) + size (b.s)
    bal = z3abs (m.total () + b.total ())
    if prev is None: p = z3.IntVal (1)
    else: p = z3abs (z3.If (size (prev.modifier.s) > 0, prev.modifier.total (), prev.buttons.total ()) + b.total ())
    return n, bal, p
def lex (a, b, strict):
    """ a before b """
    r = strict
    for x, y in reversed (list (zip (a, b))): r = z3.Or (x < y, z3.And (x == y, r))
    return r
def writerWith (prev):
    from lulua.writer import Writer
    w = Writer (StubLayout ())
    w.hands = POISON                # not used for the choice
    w.lastCombination = prev
    CTX.roots['w'] = w
    return w
def choose ():
    prev = combination (CTX.fresh ('prev', I)) if CTX.choose (2) else None
    if prev is not None: CTX.assume (num (prev.index) == -1)
    n = CTX.fresh ('alternatives', I)
    j = CTX.fresh ('other', I)
    CTX.assume (z3.And (n >= 1, j >= 0, j < n))
    made = {}
    def elem (i):
        CTX.assume (z3.And (i >= 0, i < n))
        i = z3.simplify (i)
        if i.sexpr () not in made: made[i.sexpr ()] = combination (i)
        return made[i.sexpr ()]
    cs = VList ([], AbsSeq ('alternatives', elem, n))
    CTX.genericIndices = lambda s: [j]
    CTX.compareConstants = False
    return prev, cs, n, j, elem
FN = ['writer.Writer.chooseCombination', 'writer.Writer.getHandFinger', 'layout.ButtonCombination.__len__', 'layout.ButtonCombination.__iter__']
@harness ('choice', functions=FN, covers=['chosen'], seconds=200)
def h ():
    prev, cs, n, j, elem = choose ()
    w = writerWith (prev)
    with hands ():
        r = run ('chooseCombination', w.chooseCombination, cs)
    if not hasattr (r, 'index'): raise Unsupported ('not an alternative')
    i = num (r.index)
    prove (z3.And (i >= 0, i < n), 'one of the alternatives is chosen')
    prove (z3.Or (n == 1, lex (score (r, prev), score (elem (j), prev), i <= j)), 'fewest keys, then most even, then most even with the previous combination, then first')
    prove (w.lastCombination is prev, 'choosing does not press')
    cover ('chosen')
@harness ('press', functions=['writer.Writer.press'])
def h ():
    w = writerWith (combination (CTX.fresh ('prev', I)) if CTX.choose (2) else None)
    c = combination (CTX.fresh ('next', I))
    run ('press', w.press, c)
    prove (w.lastCombination is c, 'the combination that was pressed is the previous one')
    from lulua.writer import Writer
    prove (Writer (StubLayout ()).lastCombination is None, 'no previous combination at first')
STANDARD = dict (
    l=dict (B='1LITTLE 2LITTLE 3LITTLE 4RING 5MIDDLE 6INDEX 7INDEX', C='_tabLITTLE 1LITTLE 2RING 3MIDDLE 4INDEX 5INDEX', D='_capsLITTLE 1LITTLE 2RING 3MIDDLE 4INDEX 5INDEX',
        E='_shiftLITTLE 1LITTLE 2LITTLE 3RING 4MIDDLE 5INDEX 6INDEX', F='_ctrlLITTLE _fnLITTLE _winTHUMB _altTHUMB _spaceTHUMB'),
    r=dict (B='6INDEX 5INDEX 4MIDDLE 3RING 2LITTLE 1LITTLE _bsLITTLE', C='7INDEX 6INDEX 5MIDDLE 4RING 3LITTLE 2LITTLE 1LITTLE', D='7INDEX 6INDEX 5MIDDLE 4RING 3LITTLE 2LITTLE 1LITTLE',
        E='5INDEX 4INDEX 3MIDDLE 2RING 1LITTLE _shiftLITTLE', F='_spaceTHUMB _altgrTHUMB _winTHUMB _menuTHUMB _ctrlLITTLE'))
def standard ():
    import re
    out = {'CD_ret': (2, 1)}
    fingers = dict (LITTLE=1, RING=2, MIDDLE=3, INDEX=4, THUMB=5)
    for h, rows in STANDARD.items ():
        for r, l in rows.items ():
            for x in l.split ():
                m = re.fullmatch (r'(\w*?)(LITTLE|RING|MIDDLE|INDEX|THUMB)', x)
                out[r + h + m.group (1)] = (dict (l=1, r=2)[h], fingers[m.group (2)])
    return out
@harness ('standard assignment', functions=['writer.Writer.getHandFinger'])
def h ():
    from lulua.keyboard import Button
    w = writerWith (None)
    for n, (hd, f) in standard ().items ():
        r = run (f'getHandFinger', w.getHandFinger, Button (n))
        prove (tuple (map (int, r)) == (hd, f), 'every key of the standard keyboard is hit by the finger of the ten-finger assignment', n)
@harness ('few alternatives', functions=FN, mode='unroll', unroll=3, refute=True, bound='2 alternatives and a previous combination, up to 3 keys each', seconds=100)
def h ():
    prev, cs, n, j, elem = choose ()
    CTX.assume (z3.And (n == 2))
    def small (c, k=2):
        CTX.assume (z3.And (size (c.modifier.s) <= k, size (c.buttons.s) == 1))
        return c
    cs = VList ([small (elem (z3.IntVal (0))), small (elem (z3.IntVal (1)))])
    if prev is not None: small (prev, 1)
    w = writerWith (prev)
    with hands ():
        r = run ('chooseCombination', w.chooseCombination, cs)
    k = 0 if r is cs.items[0] else 1
    prove (r is cs.items[k], 'one of the alternatives is chosen')
    for q in range (2): prove (lex (score (r, prev), score (cs.items[q], prev), z3.BoolVal (k <= q)), 'fewest keys, then most even, then most even with the previous combination, then first')
from . import typing_ as ty
@harness ('previous combination while typing', functions=['writer.Writer.type', 'writer.Writer.press'], covers=['again'])
def h ():
    w = ty.World ()
    k = ty.writerOf (w)
    fd = ty.Fd (w)
    CTX.roots.update (w=w, fd=fd, k=k)
    last = []
    def chosen (wr, combinations, c):
        prove (ty.same (wr.lastCombination, w.prev), 'the choice is made after the combination that was pressed before')
        if w.prev is not None: cover ('again')
        last[:] = [(combinations.what, c)]
    k.chosen = chosen
    CTX.preds = lambda snap: {'last is the one pressed before': ty.same (k.lastCombination, w.prev)}
    for r in drain (run ('type', k.type, fd), 'typing goes on'):
        if not isinstance (r, tuple) or len (r) != 2: raise Unsupported ('not a pair')
        match, ev = r
        if isinstance (ev, ty.Comb):
            if not last: raise Unsupported ('choice made elsewhere')
            prove (last[0][1] is ev, 'what is typed is what was chosen')
            prove (ty.textIs (match, w.S, last[0][0][0], last[0][0][0] + last[0][0][1]), 'the choice is made among the combinations of the match')
            w.prev = ev
            m = last[0][0][1]
        else: m = z3.IntVal (1)
        last[:] = []
        w.y = SymNum (z3.simplify (num (w.y) + m))
