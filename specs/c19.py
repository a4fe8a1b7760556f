"""C19: reading a brotli stream.  The decompressed data D and the compressed data C are unknown, of unknown length; the
file hands out C in pieces of arbitrary sizes; the decompressor is known by its contract: fed with C in order, it hands
out D in order in pieces of arbitrary sizes (possibly empty), is finished once everything was fed and nothing was cut off."""
from .api import *
FUN = ['text.BrotliFile.__init__', 'text.BrotliFile.read', 'text.filterBrotli']
assumption ('brotli.Decompressor: fed with consecutive pieces of one valid stream, process () returns consecutive pieces of the decompressed data, is_finished () is true exactly after the last byte of a complete stream was fed (no trailing garbage)')
assumption ('file.read (n) returns between 1 and n bytes, or nothing at the end of the file')
class World:
    """ ghost: positions in the compressed file (q), fed to the decompressor (e), decompressed (p), returned (r) """
    vcx_walk = True
    def __init__ (self):
        self.q = self.e = self.p = self.r = 0
    def vcx_inv (self):
        q, e, p = num (self.q), num (self.e), num (self.p)
        return [e >= 0, e <= q, q <= self.C.n, p >= 0, p <= self.D.n, z3.Implies (z3.And (e == self.C.n, self.complete), p == self.D.n)]
class Fd:
    def __init__ (self, w, C): self.w, self.C = w, C
    def read (self, k=None):
        w, C = self.w, self.C
        left = C.n - num (w.q)
        m = CTX.fresh ('got', z3.IntSort ())
        if k is None or isinstance (k, int) and k < 0: CTX.assume (m == left)
        else:
            CTX.assume (z3.And (m >= 0, m <= left, m <= num (k), z3.Implies (z3.And (left > 0, num (k) > 0), m > 0)))
        lo = num (w.q)
        w.q = SymNum (z3.simplify (lo + m))
        return C.slice (lo, lo + m)
    def seekable (self): return False
    def close (self): pass
class Decompressor:
    """ contract of brotli.Decompressor """
    def __init__ (self, w, C, D, complete, garbage): self.w, self.C, self.D, self.complete, self.garbage = w, C, D, complete, garbage
    def process (self, chunk):
        w = self.w
        n = num (models.vlen (chunk))
        if not bool (SymBool (textIs (chunk, self.C, num (w.e), num (w.e) + n))): return self.garbage.whole ()
        if CTX.branch (n == 0): return b''
        w.e = SymNum (z3.simplify (num (w.e) + n))
        lo, hi = num (w.p), CTX.fresh ('more', z3.IntSort ())
        CTX.assume (z3.And (lo <= hi, hi <= self.D.n, z3.Implies (z3.And (num (w.e) == self.C.n, self.complete), hi == self.D.n)))
        w.p = SymNum (hi)
        return self.D.slice (lo, hi)
    decompress = process
    def is_finished (self): return SymBool (z3.And (num (self.w.e) == self.C.n, self.complete))

def world ():
    import lulua.text
    w = World ()
    D, C, G = Base ('D', 'bytes'), Base ('C', 'bytes'), Base ('G', 'bytes')
    complete = CTX.fresh ('complete', z3.BoolSort ())
    CTX.assume (z3.Implies (complete, C.n >= 1))
    D.anchor = lambda: w.p
    class Brotli:
        @staticmethod
        def Decompressor (): return Decompressor (w, C, D, complete, G)
        error = Exception
    lulua.text.brotli = Brotli
    w.C, w.D, w.complete = C, D, complete
    CTX.roots.update (w=w)
    CTX.progress = lambda a: C.n - num (w.q) if a.lid.startswith ('lulua.') else None
    return w, D, C, complete
def step (f, w, D, complete):
    """ one read """
    lo = num (w.r)
    if CTX.choose (2):
        n = Int ('n', 0)
        want = z3.If (n.t < D.n - lo, n.t, D.n - lo)
        v, e = call ('read', f.read, n, raises=(EOFError,))
    else:
        n, want = None, D.n - lo
        v, e = call ('read', f.read, raises=(EOFError,))
    if e is not None:
        prove (z3.Not (complete), 'only a truncated stream ends in an error')
        cover ('truncated')
        raise PathEnd ()
    # a truncated stream never gives more than was decompressed
    prove (implies (complete, num (models.vlen (v)) == want), 'a read returns as many bytes as requested or as there are')
    prove (textIs (v, D, lo, lo + num (models.vlen (v))), 'a read returns the next bytes of the decompressed data')
    if n is not None: prove (implies (Not (complete), num (models.vlen (v)) == n.t), 'a sized read of a truncated stream returns all it was asked for')
    else: prove (complete, 'reading all of a truncated stream is an error')
    w.r = SymNum (z3.simplify (lo + num (models.vlen (v))))

@harness ('reads', functions=FUN, covers=['truncated', 'end', 'loop lulua.text', 'loop spec.history'], seconds=120)
def h ():
    from lulua.text import BrotliFile, filterBrotli
    w, D, C, complete = world ()
    fd = Fd (w, C)
    if CTX.choose (2): f = run ('BrotliFile', BrotliFile, fd, readchunk=Int ('readchunk', 1))
    else:
        fs = list (it (run ('filterBrotli', filterBrotli, fd)))
        prove (len (fs) == 1, 'the filter yields one file')
        f = fs[0]
    CTX.roots['f'] = f
    for _ in history ():
        step (f, w, D, complete)
    cover ('end')
