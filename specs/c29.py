"""C29: key labels.  Texts of one character: all of them, one by one (there are 1114112).  Longer texts: unknown length and
characters; `all` says whether all characters are combining ones, and if not, w is the place of one that is not."""
from .api import *
import unicodedata
INV = {'\t': '⭾', '\n': '↳', ' ': '\u2423', '\b': '⌦', '\u202f': '[NNBSP]'}
def label (t):
    if unicodedata.combining (t): return '\u25cc' + t
    if unicodedata.category (t) == 'Cf':
        n = unicodedata.name (t, None)
        if n is not None:
            words = n.replace ('-', ' ').split (' ')
            keep = [w for j, w in enumerate (words) if not (w.upper () == 'TO' and 0 < j < len (words)-1)]
            return '[' + ''.join (w[0] for w in keep) + ']'
    return INV.get (t, t)
def block (lo, hi):
    def h ():
        from lulua.util import displayText
        bad = []
        def go ():
            for cp in range (lo, hi):
                t = chr (cp)
                if displayText (t) != label (t):
                    bad.append (cp)
                    break
        run ('displayText', go)
        CTX.hintFn = lambda m: dict (s=chr (bad[0]))
        prove (not bad, 'label of every single character', f'U+{bad[0]:04X}' if bad else '')
        cover ('end')
    return h
N = 0x110000
for k in range (7): harness (f'single characters {k+1}/7', functions=['util.displayText'], covers=['end']) (block (k*N//7, (k+1)*N//7))
@harness ('nothing', functions=['util.displayText'], covers=['end'])
def h ():
    from lulua.util import displayText
    prove (run ('displayText', displayText, None) is None, 'nothing stays nothing')
    cover ('end')
class Text (Base):
    def at (self, i):
        t = self.f (i)
        CTX.assume (z3.And (models.combf (t) >= 0, z3.Implies (self.all, models.combf (t) != 0)))
        return t
def text (lens):
    S = Text ('S')
    S.all, S.w = CTX.fresh ('all', z3.BoolSort ()), CTX.fresh ('w', z3.IntSort ())
    CTX.assume (z3.Implies (z3.Not (S.all), z3.And (S.w >= 0, S.w < S.n, models.combf (S.f (S.w)) == 0)))
    CTX.assume (lens (S.n))
    return S
def check (S):
    from lulua.util import displayText
    def preds (snap):
        out = notYet (snap)
        ps = {'.'.join (map (str, p)): num (x[1]) for p, x in snap.items () if x[0] == 'atom' and loops.isNum (x[1]) and p[0] == 'frame'}
        for a, x in ps.items ():
            for b, p in ps.items ():
                if b.endswith ('.pos') and not a.endswith ('.pos'): out[f'{a} counts up to {b}'] = z3.And (x <= p - z3.If (z3.And (z3.Not (S.all), p > S.w), 1, 0), z3.Implies (S.all, x == p))
        return out
    CTX.preds = preds
    notYet = lambda snap: {'.'.join (map (str, p)) + ': not there yet': z3.Or (S.all, num (x[1]) <= S.w) for p, x in snap.items () if p[-1] in ('pos', 'i') and x[0] == 'atom' and loops.isNum (x[1])}
    t = S.whole ()
    r = run ('displayText', displayText, t)
    if not isinstance (r, (Rope, str)): raise Unsupported ('unexpected label')
    if CTX.branch (S.all):
        ok = isinstance (r, Rope) and bool (r.segs) and r.segs[0][0] == 'lit' and r.segs[0][1][0] == '\u25cc'
        prove (ok and textIs (r[1:], S, 0, S.n), 'combining characters are put on a dotted circle')
        cover ('combining')
    else:
        prove (textIs (r, S, 0, S.n), 'longer text is returned unchanged')
        cover ('other')
@harness ('longer texts', functions=['util.displayText'], covers=['combining', 'other'])
def h (): check (text (lambda n: n >= 2))
@harness ('texts of two and three characters', functions=['util.displayText'], mode='unroll', unroll=5, refute=True, bound='texts of 2 or 3 characters')
def h ():
    n = 2 + CTX.choose (2)
    S = text (lambda m: m == n)
    for i in range (n): S.at (z3.IntVal (i))
    check (S)
assumption ('C29: the unicode database is the one of the running interpreter')
