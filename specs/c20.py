"""C20: reading a tar stream.  The stream T is unknown, of unknown length; whenever the code reads at the place where the
next header is due, the stream is assumed to have there either its end, the end-of-archive block, or a header in GNU
format (magic, size as 11 octal digits) followed by that many bytes.  Non-empty members are numbered; the k-th result
must be the content of the k-th of them."""
from .api import *
FUN = ['text.filterTar']
assumption ('tar headers in GNU format: magic at 257, size as 11 octal digits and NUL at 124 (members below 8 GiB)')
assumption ('file.read (n) returns n bytes, or what is left of the file')
start = z3.Function ('memberStart', z3.IntSort (), z3.IntSort ())
size = z3.Function ('memberSize', z3.IntSort (), z3.IntSort ())
zero = z3.Function ('zeroBlock', z3.IntSort (), z3.BoolSort ())
class World:
    """ ghost: q position in the stream, h where the next header is due, k non-empty members seen, y results so far, end """
    vcx_walk = True
    def __init__ (self, T):
        self.T = T
        self.q = self.h = self.k = self.y = 0
        self.end = False
    def vcx_inv (self):
        return [num (self.q) >= 0, num (self.h) >= 0, num (self.h) % 512 == 0, num (self.k) >= 0, num (self.y) >= 0]
class Fd:
    vcx_walk = True
    def __init__ (self, w): self.w = w
    def read (self, k=None):
        w = self.w
        lo, n = num (w.q), w.T.n
        hi = n
        if k is not None and not (isinstance (k, int) and k < 0): hi = lo + num (k)
        # what is at the place of the next header
        if not bool (w.end) and CTX.branch (z3.And (lo <= num (w.h), num (w.h) < hi, num (w.h) <= n)):
            if CTX.mode == 'prove' and not must (lo == num (w.h)): raise Unsupported ('a header is read together with something else')
            header (w)
        hi = z3.simplify (z3.If (hi <= n, hi, n))
        if CTX.branch (lo >= hi): return b''
        w.q = SymNum (hi)
        return w.T.slice (lo, hi)
    def tell (self): return self.w.q
    def seekable (self): return False
def facts (T, lo):
    CTX.assume (z3.Implies (zero (lo), T.at (z3.simplify (lo + 257)) == 0))
def header (w):
    T, h = w.T, num (w.h)
    facts (T, h)
    kind = CTX.choose (3)
    if kind == 0:
        CTX.assumeChecked (T.n == h)
        w.end = True
    elif kind == 1:
        CTX.assumeChecked (z3.And (T.n >= h + 512, zero (h)))
        w.end = True
    else:
        z = z3.IntVal (0)
        at = lambda k: T.at (z3.simplify (h + k))
        for k, c in enumerate (b'\0ustar  '): CTX.assume (at (256 + k) == c)
        for k in range (11):
            CTX.assume (z3.And (at (124 + k) >= 48, at (124 + k) < 56))
            z = z + (at (124 + k) - 48) * 8 ** (10-k)
        CTX.assume (at (135) == 0)
        s = CTX.fresh ('size', z3.IntSort ())
        CTX.assumeChecked (z3.And (s == z, T.n >= h + 512 + s))
        w.h = SymNum (z3.simplify (h + 512 + (s + 511) / 512 * 512))
        if CTX.branch (s > 0):
            CTX.assume (z3.And (start (num (w.k)) == h + 512, size (num (w.k)) == s))
            w.k = w.k + 1
            cover ('member')
        else: cover ('empty member')
def ropeEq (w):
    def f (a, b):
        """ comparison with a block of zeros """
        for x, y in ((a, b), (b, a)):
            if len (y.segs) == 1 and y.segs[0][0] == 'lit' and y.segs[0][1] == b'\0'*512 and len (x.segs) == 1 and x.segs[0][0] == 'sl' and x.segs[0][1] is w.T:
                if not CTX.branch (x.lent () == 512): return False
                facts (w.T, x.segs[0][2])
                return SymBool (zero (x.segs[0][2]))
        raise Unsupported ('comparison of unknown data')
    return f
class Bytes:
    """ contract of io.BytesIO: a file with this content """
    def __init__ (self, content=b''): self.content = content
    def getvalue (self): return self.content
@harness ('members', functions=FUN, covers=['member', 'empty member', 'end', 'yield', 'loop lulua.text'], cut=['lulua.text.filterTar'])
def h (): members ()
@harness ('two members', functions=FUN, mode='unroll', arrivals=3, refute=True, bound='3 headers', seconds=60)
def h2 (): members ()
def members ():
    import lulua.text
    T = Base ('T', 'bytes')
    w = World (T)
    CTX.ropeEq = ropeEq (w)
    lulua.text.BytesIO = Bytes
    CTX.roots.update (w=w)
    CTX.invariants.append (('at a header or at the end', lambda a: Or (w.end, And (num (w.q) <= num (w.h), num (w.q) <= T.n, Or (num (w.q) == num (w.h), num (w.q) == T.n)))))
    CTX.progress = lambda a: T.n - num (w.q) if a.iterator is None else None
    g = run ('filterTar', lulua.text.filterTar, Fd (w))
    CTX.roots['g'] = g
    g = iter (g)
    while True:
        def nxt ():
            try: return next (g)
            except StopIteration: return STOP
        v = run ('next member', nxt)
        if v is STOP: break
        if not isinstance (v, Bytes): raise Unsupported (f'unexpected result {v!r}')
        y = num (w.y)
        prove (y < num (w.k), 'only members give results')
        prove (textIs (v.content, T, start (y), start (y) + size (y)), 'a result is the content of its member')
        w.y = w.y + 1
        cover ('yield')
    prove (num (w.y) == num (w.k), 'every non-empty member gives a result')
    prove (Or (w.end, T.n <= num (w.h)), 'reading stops only at the end of the archive')
    cover ('end')
