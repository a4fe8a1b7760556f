from common import *
RULE = 'random data compressed by brotli, read with random sizes through chunked and short-reading files, complete and truncated; non-trivial: at least two reads'
CASE_SECONDS = 8
def nontrivial (c): return len (c['reads']) > 1
def fixed ():
    for n in (0, 1, 511, 512, 513, 100*1024, 300*1024):
        yield dict (n=n, seed=n, reads=[None, 5, None], chunk=None, short=False, cut=None)
        yield dict (n=n, seed=n, reads=[512, 0, 512, 1, None, 7], chunk=1000, short=True, cut=None)
    yield dict (n=5000, seed=1, reads=[None], chunk=None, short=False, cut=1.0)
    yield dict (n=5000, seed=1, reads=[100, 0, 100, None], chunk=100, short=False, cut=.5)
    yield dict (n=5000, seed=1, reads=[0, 1, 0, 700, 0], chunk=64, short=False, cut=.9)
    yield dict (n=5000, seed=1, reads=[6000], chunk=100, short=False, cut=0.0)
    yield dict (n=10, seed=1, reads=[1]*14, chunk=1, short=False, cut=None)
def gen (rng, i):
    n = rng.choice ([0, 1, 7, 100, 5000, 70000])
    rd = [rng.choice ([0, 1, 2, 10, 512, 4096, n, n//2, n+1, None]) for _ in range (rng.randint (1, 12))]
    return dict (n=n, seed=rng.randrange (2**31), reads=rd, chunk=rng.choice ([None, 1, 3, 64, 1000]), short=rng.random () < .4, cut=rng.random () if rng.random () < .25 else None)
def check (c):
    from lulua.text import BrotliFile
    import brotli
    rng = random.Random (c['seed'])
    data = bytes (rng.randrange (256) if rng.random () < .5 else 65 for _ in range (c['n'])) if c['n'] < 80000 else bytes (rng.randrange (256) for _ in range (1000)) * (c['n']//1000)
    comp = brotli.compress (data, quality=1)
    if c['cut'] is not None:
        comp = comp[:int ((len (comp)-1)*c['cut'])]
    calls = [0]
    class F (io.BytesIO):
        def read (self, n=-1):
            calls[0] += 1
            expect (calls[0] < 10**6, 'endless reading')
            if c['short'] and n is not None and n > 0: n = rng.randint (1, n)
            return super ().read (n)
    f = BrotliFile (F (comp), c['chunk']) if c['chunk'] else BrotliFile (F (comp))
    pos = 0
    calls0 = 0
    for r in c['reads']:
        if c['cut'] is not None:
            try:
                got = f.read () if r is None else f.read (r)
            except Exception as e:
                avail = len (brotli.Decompressor ().process (comp))
                expect (r is None or avail < pos + r, f'read ({r}) at {pos} of a truncated stream failed although {avail} bytes are there: {e!r}')
                return
            expect (r is not None, 'unlimited read of a truncated stream returned without an error')
            eq (len (got), r, f'bytes returned by read ({r})')
            eq (got, data[pos:pos+r], f'read ({r}) at {pos}')
            pos += len (got)
            continue
        got = f.read () if r is None else f.read (r)
        want = data[pos:] if r is None else data[pos:pos+r]
        if got != want:
            raise Fail (f'read ({r}) at {pos} returned {len (got)} bytes, expected {len (want)}; {got[:20]!r}… instead of {want[:20]!r}…')
        pos += len (want)
    if c['cut'] is None:
        if f.read () != data[pos:]: raise Fail ('final read differs')
        eq (f.read (), b'', 'read after the end'); eq (f.read (10), b'', 'sized read after the end')
