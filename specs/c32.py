"""C32: sentences of XML corpora.  Any number of texts, bodies, paragraphs, sentences and nodes.  Line numbers: texts start at
line textAt (t), body b of it at bodyAt (t, b), paragraph p of that at parAt (t, b, p); sentence s follows s lines later."""
from .seqs import *
I = z3.IntSort ()
F = lambda n, k: z3.Function (n, *[I] * (k + 1))
bodies, pars, sents = F ('bodies', 1), F ('paragraphs', 2), F ('sentences', 3)
textAt, bodyAt, parAt = F ('textAt', 1), F ('bodyAt', 2), F ('parAt', 3)
isText, start = (z3.Function ('isText', I, z3.BoolSort ()), F ('start', 1))
assumption ('C32: xml.dom.minidom by its documented contract: getElementsByTagName gives the elements of that name below a node in document order, childNodes its children')
class Nodes (SymObj):
    """ what is directly inside sentence number s """
    vcx_fields = ()
    def __init__ (self, s=None):
        self.s = s
        self.term = CTX.fresh ('nodes', I)
class Line (SymObj):
    """ text directly inside the sentence that belongs to line n """
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, n=None, stripped=False):
        self.n, self.stripped = n, stripped
        self.term = CTX.fresh ('line', I)
    def strip (self, *a):
        if a or self.n is None: raise Unsupported ('strip')
        return Line (self.n, True)
    def __getattr__ (self, n):
        if n.startswith ('__') or n.startswith ('vcx'): raise AttributeError (n)
        raise Unsupported ('text is changed')
class World:
    vcx_walk = True
    vcx_quiet = ('n',)
    def __init__ (self):
        self.t = self.b = self.p = self.s = 0
        self.n = CTX.fresh ('texts', I)
        CTX.assume (z3.And (self.n >= 0, textAt (0) == 0))
class Node:
    vcx_fields = ()
    def __init__ (self, w, kind, at): self.w, self.kind, self.at = w, kind, at
    def getElementsByTagName (self, name):
        w, a = self.w, self.at
        if (self.kind, name) not in (('doc', 'text'), ('text', 'body'), ('body', 'p'), ('p', 's'), ('subtitles', 's')): raise Unsupported ('other elements')
        if self.kind == 'doc':
            def el (t):
                CTX.assume (z3.And (bodyAt (t, 0) == textAt (t), textAt (t + 1) == bodyAt (t, bodies (t)), bodies (t) >= 0))
                return Node (w, 'text', (t,))
            return Seq (w, 't', w.n, el)
        if self.kind == 'text':
            def el (b):
                CTX.assume (z3.And (parAt (*a, b, 0) == bodyAt (*a, b), bodyAt (*a, b + 1) == parAt (*a, b, pars (*a, b)), pars (*a, b) >= 0))
                return Node (w, 'body', a + (b,))
            return Seq (w, 'b', bodies (*a), el)
        if self.kind == 'body':
            def el (p):
                CTX.assume (z3.And (parAt (*a, p + 1) == parAt (*a, p) + sents (*a, p) + 1, sents (*a, p) >= 0))
                return Node (w, 'p', a + (p,))
            return Seq (w, 'p', pars (*a), el)
        if self.kind == 'p': return Seq (w, 's', sents (*a), lambda s: Node (w, 's', z3.simplify (parAt (*a) + s)))
        return Seq (w, 's', w.n, lambda s: Node (w, 's', s))
    @property
    def childNodes (self):
        if self.kind != 's': raise Unsupported ('other nodes')
        return Nodes (self.at)
class Joined:
    vcx_fields = ()
    vcx_str = True
    def __init__ (self, n, sep): self.n, self.sep = n, sep
class Lines:
    """ list of lines the code builds: length lines from line base on """
    vcx_fields = ('length', 'base')
    vcx_container = 'list'
    __hash__ = None
    def put (self, n, what):
        k, b = num (self.length), num (self.base)
        prove (Or (k == 0, n == b + k), what)
        self.base = SymNum (z3.simplify (z3.If (k == 0, n, b)))
    def append (self, x):
        k, w = num (self.length), Lines.world
        if isinstance (x, Line):
            if x.n is None: raise Unsupported ('other lines')
            self.put (x.n, 'every sentence is one line, in document order')
            prove (x.stripped is Lines.strip, Lines.how)
        elif isinstance (x, str) and x == '' and not Lines.strip:
            t, b, p = num (w.t) - 1, num (w.b) - 1, num (w.p) - 1
            if not must (z3.And (t >= 0, b >= 0, p >= 0)): raise Unsupported ('line outside a paragraph')
            self.put (parAt (t, b, p) + sents (t, b, p), 'an empty line after each paragraph')
        else: raise Unsupported ('other lines')
        self.length = self.length + 1
    def join (self, o):
        if CTX.branch (num (o.length) > 0): self.put (num (o.base), 'every sentence is one line, in document order')
        self.length = self.length + o.length
    def extend (self, xs):
        from vcx import prelude
        if isinstance (xs, Lines): self.join (xs)
        elif models.absIterable (xs): prelude.get ('each') (xs, self.append)
        else:
            for x in it (xs): self.append (x)
    def __iadd__ (self, xs):
        self.extend (xs)
        return self
    def vcx_join (self, sep):
        prove (Or (num (self.length) == 0, num (self.base) == 0), 'the first sentence comes first')
        return Joined (num (self.length), sep)
    def vcx_len (self): return self.length
    def __bool__ (self): return CTX.branch (num (self.length) > 0)
def extract (f, kind, strip, how, total):
    import lulua.text as T
    w = World ()
    Lines.world, Lines.strip, Lines.how = w, strip, how
    if not hasattr (T, 'getText'): raise Unsupported ('made of other parts')
    def newList (v):
        v.__class__ = Lines
        v.length, v.base = 0, 0
        made.append (v)
    def text (x):
        if not isinstance (x, Nodes) or x.s is None: raise Unsupported ('other nodes')
        return Line (x.s)
    def terms (snap):
        t, b, p, s = (num (x) - 1 for x in (w.t, w.b, w.p, w.s))
        return {'texts': textAt (t + 1), 'bodies': bodyAt (t, b + 1), 'paragraphs': parAt (t, b, p + 1), 'sentences': parAt (t, b, p) + s + 1}
    made = []
    if not strip: CTX.terms = terms
    def preds (snap):
        out = {}
        t, b, p = (num (x) - 1 for x in (w.t, w.b, w.p))
        for i, l in enumerate (made):
            out[f'list {i}: of everything'] = z3.Or (num (l.length) == 0, num (l.base) == 0)
            if not strip: out[f'list {i}: of this paragraph'] = z3.Or (num (l.length) == 0, num (l.base) == parAt (t, b, p))
        return out
    CTX.preds = preds
    def joined (sep, i):
        from vcx import prelude
        return models.join (sep, prelude.get ('collect') (i))
    CTX.compareConstants = False
    CTX.roots['w'] = w
    g = Ghost (y=0)
    CTX.roots['g'] = g
    old, T.getText = T.getText, text
    CTX.newList, CTX.joinHook = newList, joined
    try:
        for r in drain (run ('extract', f (T), Node (w, kind, ())), 'next text'):
            CTX.newList = None
            if not isinstance (r, Joined): raise Unsupported ('other texts')
            prove (r.sep == '\n', 'one line each')
            prove (num (g.y) == 0, 'one text')
            prove (r.n == total (w), 'every sentence is there')
            g.y = g.y + 1
    finally:
        T.getText = old
        CTX.newList = CTX.joinHook = None
    prove (num (g.y) == 1, 'one text')
    cover ('end')
@harness ('TEI.2', functions=['text.filterTEI2'], covers=['end'], seconds=120)
def _ (): extract (lambda T: T.filterTEI2, 'doc', False, 'the text is unchanged', lambda w: textAt (w.n))
@harness ('subtitles', functions=['text.filterOpenSubtitles'], covers=['end'], seconds=60)
def _ (): extract (lambda T: T.filterOpenSubtitles, 'subtitles', True, 'without surrounding white space', lambda w: w.n)
@harness ('getText', functions=['text.getText'], covers=['end'], seconds=60)
def _ ():
    from lulua.text import getText
    from xml.dom import Node as N
    w = World ()
    T = Base ('text')
    CTX.assume (start (0) == 0)
    def node (i):
        CTX.assume (z3.And (start (i) >= 0, start (i + 1) >= start (i), z3.Implies (z3.Not (isText (i)), start (i + 1) == start (i)), start (i + 1) <= T.n))
        return Child (i)
    class Child (N):
        vcx_fields = ()
        def __init__ (self, i): self.i = i
        @property
        def nodeType (self):
            if CTX.branch (isText (self.i)): return N.TEXT_NODE
            if CTX.branch (CTX.fresh ('element', z3.BoolSort ())): return N.ELEMENT_NODE
            return N.COMMENT_NODE       # (character data sections: not decided by the property)
        @property
        def data (self):
            if CTX.branch (isText (self.i)): return T.slice (start (self.i), start (self.i + 1))
            return Base ('other').whole ()
        nodeValue = data
    T.anchor = lambda: start (num (w.s))
    CTX.assume (start (w.n) == T.n)
    CTX.roots['w'] = w
    CTX.terms = lambda snap: {'upto': start (num (w.s))}
    r = run ('getText', getText, Seq (w, 's', w.n, node))
    prove (textIs (r, T, 0, T.n), 'the text directly inside the element, in order')
    cover ('end')
