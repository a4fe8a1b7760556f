"""C21: extraction from HTML.  The document is an arbitrary stream of tokens of a tree walker: any number of start tags,
end tags (never more than there are open elements), empty tags, texts, white space, comments and doctypes, in any order.
The specification knows the depth, and at which depth the outermost script and the outermost selected element were
opened; R is the text that has to come out, of which off (i) characters are due to the first i tokens."""
from .api import *
FUN = ['text.Select.__init__', 'text.Select.__iter__', 'text.HTMLSerializer.serialize', 'text.filterHtml']
assumption ('html5lib.parse and the tree walker: the tokens of a document are well nested, entities are decoded, white space at the edges of a text is a token of its own')
assumption ('the selector is an arbitrary predicate of the token')
off = z3.Function ('due', z3.IntSort (), z3.IntSort ())
class Tokens:
    """ the stream of tokens """
    def __init__ (self, w): self.w = w
    def __iter__ (self): return TokenIter (self.w)
class World:
    """ ghost: number of tokens so far (i), open elements (depth), depth of the outermost open script (script) and selected
    element (sel), -1 if none; what the last token has to add """
    vcx_walk = True
    def __init__ (self, limit=None):
        self.i, self.depth, self.script, self.sel = 0, 0, -1, -1
        self.limit = limit
    def vcx_inv (self):
        i, d, s, x = num (self.i), num (self.depth), num (self.script), num (self.sel)
        return [i >= 0, i <= self.n, d >= 0, s >= -1, s < z3.If (d > 0, d, 1), x >= -1, x < z3.If (d > 0, d, 1), z3.Implies (s >= 0, s < d), z3.Implies (x >= 0, x < d), z3.Implies (z3.And (s >= 0, x >= 0), x < s), off (i) >= 0, off (i) <= self.R.n]
KINDS = ['StartTag', 'EndTag', 'EmptyTag', 'Characters', 'SpaceCharacters', 'Comment', 'Doctype']
class TokenIter (VIter):
    vcx_fields = ()
    vcx_abstract = True
    def __init__ (self, w): self.w = w
    def vnext (self):
        w = self.w
        i = num (w.i)
        if CTX.branch (i >= w.n): return STOP
        R = w.R
        d, s, x = num (w.depth), num (w.script), num (w.sel)
        k = KINDS[CTX.choose (len (KINDS))]
        visible = z3.And (s < 0, x >= 0)
        t = VDict (type=k)
        due, lit = None, None
        if k in ('StartTag', 'EmptyTag', 'EndTag'):
            t['name'] = SymStr (name='name')
            t['namespace'] = None
            nm = t['name'].term
            isScript = z3.Or (nm == internId ('script'), nm == internId ('style'))
        if k in ('StartTag', 'EmptyTag'):
            chosen = CTX.fresh ('chosen', z3.BoolSort ())
            t['data'] = Attributes (chosen)
        if k == 'StartTag':
            w.script = SymNum (z3.simplify (z3.If (z3.And (s < 0, isScript), d, s)))
            w.sel = SymNum (z3.simplify (z3.If (z3.And (s < 0, z3.Not (isScript), x < 0, chosen), d, x)))
            w.depth = SymNum (z3.simplify (d + 1))
        elif k == 'EndTag':
            CTX.assumeChecked (d > 0)
            d = z3.simplify (d - 1)
            CTX.assume (z3.Implies (s == d, isScript))
            w.depth = SymNum (d)
            w.script = SymNum (z3.simplify (z3.If (s >= d, -1, s)))
            w.sel = SymNum (z3.simplify (z3.If (x >= d, -1, x)))
            if CTX.branch (z3.And (visible, z3.Or (nm == internId ('p'), nm == internId ('div')))): lit = '\n\n'
        elif k == 'Characters':
            if CTX.branch (visible):
                due = CTX.fresh ('len', z3.IntSort ())
                CTX.assume (due >= 1)
                t['data'] = R.slice (off (i), off (i) + due)
            else:
                t['data'] = Base ('other').whole ()
        elif k == 'SpaceCharacters':
            t['data'] = Base ('space').whole ()
            if CTX.branch (visible): lit = ' '
        elif k == 'Comment': t['data'] = Base ('comment').whole ()
        else: t.update (dict (name='html', publicId=None, systemId=None))
        n = due if due is not None else z3.IntVal (len (lit or ''))
        CTX.assume (z3.And (off (i+1) == off (i) + n, off (i+1) <= R.n))
        for j, c in enumerate (lit or ''): CTX.assume (R.at (z3.simplify (off (i) + j)) == ord (c))
        w.i = SymNum (z3.simplify (i + 1))
        w.lit = (lit, z3.simplify (off (i)), z3.simplify (off (i+1)))
        return t
class Attributes:
    def __init__ (self, chosen): self.chosen = chosen
    def get (self, *a): raise Unsupported ('attributes')
def world ():
    import lulua.text as m
    w = World ()
    w.R = R = Base ('R')
    w.n = CTX.fresh ('tokens', z3.IntSort ())
    CTX.assume (z3.And (w.n >= 0, off (0) == 0, off (w.n) == R.n))
    R.anchor = lambda: off (num (w.i))
    real = getattr (m, 'vcx_html5lib', None) or m.html5lib
    m.vcx_html5lib = real
    class Lib:
        constants = real.constants
        @staticmethod
        def parse (fd, *a, **k): return 'document'
        @staticmethod
        def getTreeWalker (kind, *a, **k): return lambda doc: Tokens (w)
    m.html5lib = Lib
    w.lit = (None, None, None)
    def seg (s):
        if s[0] == 'lit' and w.lit[0] is not None and s[1] == w.lit[0]: return ('sl', R, w.lit[1], w.lit[2])
        return s
    CTX.catHook = seg
    def terms (snap):
        return {'depth in script': num (w.depth) - num (w.script), 'depth in selected': num (w.depth) - num (w.sel), 'due': off (num (w.i))}
    CTX.terms = terms
    def preds (snap):
        out = {}
        s, x = num (w.script), num (w.sel)
        for p, v in snap.items ():
            if v[0] != 'atom' or p[-1] in ('lit', 'R', 'n') or p[0] not in ('frame',) or p[-1] == 'lasti': continue
            v = v[1]
            nm = '.'.join (map (str, p))
            if v is None or loops.isNum (v):
                a = z3.BoolVal (v is None)
                out[nm + ' none if no script'] = a == (s < 0)
                out[nm + ' none if nothing selected'] = a == (x < 0)
            if loops.isNum (v) and not isReal (num (v)):
                a = num (v)
                out[nm + ' depth in script, if set'] = z3.Implies (s >= 0, a == num (w.depth) - s)
                out[nm + ' depth in selected, if set'] = z3.Implies (x >= 0, a == num (w.depth) - x)
                out[nm + ' depth in selected outside scripts, if set'] = z3.Implies (x >= 0, a == z3.If (s >= 0, s, num (w.depth)) - x)
                out[nm + ' zero if no script'] = (a == 0) == (s < 0)
                out[nm + ' zero if nothing selected'] = (a == 0) == (x < 0)
        return out
    CTX.preds = preds
    return w, R
class Selector:
    def __call__ (self, t): return SymBool (t['data'].chosen)
@harness ('filterHtml', functions=FUN, covers=['end', 'loop lulua.text', 'text'], seconds=200)
def h ():
    from lulua.text import filterHtml
    w, R = world ()
    CTX.roots['w'] = w
    out = run ('filterHtml', lambda: list (it (filterHtml (Selector (), 'fd'))))
    prove (len (out) == 1, 'one text per document')
    prove (textIs (out[0], R, 0, R.n), 'exactly the text of the selected elements')
    cover ('end')
    CTX.assume (R.n > 0)
    cover ('text')

class ShortIter (VIter):
    """ a concrete number of arbitrary tokens """
    vcx_fields = ()
    def __init__ (self, w): self.w = w
    def vnext (self):
        w = self.w
        if w.left == 0: return STOP
        w.left -= 1
        k = w.kinds[CTX.choose (len (w.kinds))]
        t = VDict (type=k)
        visible = w.script is None and w.sel is not None
        if k in ('StartTag', 'EmptyTag', 'EndTag'):
            t['name'] = SymStr (name='name')
            t['namespace'] = None
            nm = t['name'].term
            isScript = z3.Or (nm == internId ('script'), nm == internId ('style'))
        if k in ('StartTag', 'EmptyTag'):
            chosen = CTX.fresh ('chosen', z3.BoolSort ())
            t['data'] = Attributes (chosen)
        if k == 'StartTag':
            if w.script is None:
                if CTX.branch (isScript): w.script = w.depth
                elif w.sel is None and CTX.branch (chosen): w.sel = w.depth
            w.depth += 1
        elif k == 'EndTag':
            if w.depth == 0: raise PathEnd ()
            w.depth -= 1
            if w.script is not None and w.script >= w.depth:
                CTX.assume (isScript)
                w.script = None
            else: CTX.assume (z3.Not (isScript))
            if visible and CTX.branch (z3.Or (nm == internId ('p'), nm == internId ('div'))): w.want = w.want + '\n\n'
            if w.sel is not None and w.sel >= w.depth: w.sel = None
        elif k == 'Characters':
            t['data'] = Base (f'T{w.left}').whole ()
            CTX.assume (t['data'].lent () >= 1)
            if visible: w.want = w.want + t['data']
        elif k == 'SpaceCharacters':
            t['data'] = Base (f'space{w.left}').whole ()
            CTX.assume (t['data'].lent () >= 1)
            if visible: w.want = w.want + ' '
        elif k == 'Comment': t['data'] = Base ('comment').whole ()
        else: t.update (dict (name='html', publicId=None, systemId=None))
        return t
def short (n, kinds):
    from lulua.text import filterHtml
    w0, R = world ()
    import lulua.text as m
    w = Ghost (left=n, kinds=kinds, depth=0, script=None, sel=None, want=Rope ('str'))
    class Short:
        def __iter__ (self): return ShortIter (w)
    m.html5lib.getTreeWalker = staticmethod (lambda kind, *a, **k: lambda doc: Short ())
    CTX.catHook = None
    out = run ('filterHtml', lambda: list (it (filterHtml (Selector (), 'fd'))))
    prove (len (out) == 1, 'one text per document')
    r = w.want.lift (out[0]) if isinstance (out[0], str) else out[0]
    if not isinstance (r, Rope): raise Unsupported ('unexpected result')
    prove (w.want.same (r), 'exactly the text of the selected elements')
@harness ('filterHtml short', functions=FUN, mode='unroll', unroll=3, refute=True, bound='4 tokens', seconds=60)
def h2 (): short (4, KINDS)
@harness ('filterHtml nested', functions=FUN, mode='unroll', unroll=3, refute=True, bound='7 tokens', seconds=100)
def h3 (): short (7, ['StartTag', 'EndTag', 'Characters'])
