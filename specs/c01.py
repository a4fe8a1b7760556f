"""C01: typing any text of any length on any layout."""
from .typing_ import *
FUN = ['writer.Writer.type', 'writer.Writer.press', 'writer.SkipEvent.__init__']
assumption ('Writer.chooseCombination by contract (C03): one of the alternatives')
def go ():
    w = World ()
    k = writerOf (w)
    fd = Fd (w)
    CTX.roots.update (w=w, fd=fd)
    from lulua.writer import SkipEvent
    for r in drain (run ('type', k.type, fd), 'typing goes on'):
        if not isinstance (r, tuple) or len (r) != 2: raise Unsupported ('not a pair')
        match, ev = r
        y = num (w.y)
        m = fact (w, y)
        if isinstance (ev, SkipEvent):
            prove (match is None, 'a skipped character has no match')
            prove (And (y < w.S.n, textIs (ev.char, w.S, y, y + 1)), 'what is skipped is the next character')
            prove (m == 0, 'a character is skipped only where nothing matches')
            w.y = SymNum (z3.simplify (y + 1))
            cover ('skip')
        else:
            if not isinstance (ev, Comb): raise Unsupported ('neither combination nor skip')
            prove (m > 0, 'something is typed only where something matches')
            prove (textIs (match, w.S, y, y + m), 'what is typed is the longest match at the next character')
            prove (typed (ev.term) == y, 'the combination is one that types the match')
            w.y = SymNum (z3.simplify (y + m))
            cover ('typed')
    prove (num (w.y) == w.S.n, 'nothing is left out')
    cover ('end')
harness ('typing', functions=FUN, covers=['skip', 'typed', 'end'], seconds=200) (go)
harness ('short texts', functions=FUN, mode='unroll', unroll=3, refute=True, bound='up to three pieces', seconds=100) (go)
class Step:
    """ result of a prefix search in the trie, by pygtrie's contract """
    def __init__ (self, key, value): self.key, self.value = key, value
    def __bool__ (self): return self.key is not None
    @property
    def is_set (self): return bool (self)
    def __iter__ (self): return iter ((self.key, self.value))
    def __getitem__ (self, i): return (self.key, self.value)[i]
class Trie:
    """ contract of the trie: the longest key that is a prefix, with its value """
    def __init__ (self, w): self.w, self.found = w, None
    def longest_prefix (self, buf):
        try: k, v = Layout (self.w) (buf)
        except KeyError: k, v = None, None
        self.found = Step (k, v)
        return self.found
assumption ("the trie (pygtrie.CharTrie) by its documented contract: longest_prefix gives the longest key that is a prefix and its value")
@harness ('lookup', functions=['layout.KeyboardLayout.__call__'], covers=['found', 'not found'])
def h ():
    from lulua.layout import KeyboardLayout
    w = World ()
    l = object.__new__ (KeyboardLayout)
    l.t = t = Trie (w)
    for n in KeyboardLayout.__slots__:
        if n != 't': setattr (l, n, POISON)
    lo, hi = CTX.fresh ('lo', I), CTX.fresh ('hi', I)
    CTX.assume (z3.And (lo >= 0, lo < hi, hi <= w.S.n))
    r, e = call ('lookup', l, w.S.slice (lo, hi), raises=(KeyError,))
    if t.found is None: raise Unsupported ('no prefix search')
    prove ((e is not None) == (t.found.key is None), 'key error exactly if nothing matches')
    if e is None:
        prove (z3.And (textIs (r[0], w.S, lo, lo + num (models.vlen (t.found.key))), z3.BoolVal (r[1] is t.found.value)), 'the longest match and its combinations')
        cover ('found')
    else: cover ('not found')
@harness ('keys of the standard keyboard', functions=['writer.Writer.getHandFinger'])
def h ():
    from lulua.keyboard import defaultKeyboards
    from lulua.writer import Writer
    k = Writer (StubLayout ())
    bs = list (it (defaultKeyboards['ibmpc105'].keys ()))
    prove (len (bs) > 60, 'the standard keyboard has its keys')
    for b in bs: run ('getHandFinger', k.getHandFinger, b)
