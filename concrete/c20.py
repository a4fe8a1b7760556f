from common import *
import tarfile
RULE = 'random GNU tar archives with member sizes around block boundaries, read from plain, padded and unterminated streams; non-trivial: at least two members'
def nontrivial (c): return len (c['sizes']) > 1
def fixed ():
    for end in ('full', 'one', 'none'):
        yield dict (sizes=[], seed=0, end=end)
        yield dict (sizes=[0, 1, 511, 512, 513, 0, 1023, 1024, 1025, 0], seed=1, end=end)
        yield dict (sizes=[512, 512], seed=2, end=end, zeros=True)
        yield dict (sizes=[0, 0, 3], seed=2, end=end)
    yield dict (sizes=[5, 0, 600, 7, 512, 9, 1], seed=3, end='full', dirs=True)
    yield dict (sizes=[70000, 8**7, 1], seed=2, end='full')
def gen (rng, i):
    return dict (sizes=[rng.choice ([0, 1, 10, 511, 512, 513, 1024, 1536, 10240, rng.randrange (3000)]) for _ in range (rng.randint (0, 8))], seed=rng.randrange (2**31),
        end=rng.choice (['full', 'one', 'none']), zeros=rng.random () < .2, dirs=rng.random () < .3)
def check (c):
    from lulua.text import filterTar
    rng = random.Random (c['seed'])
    buf = io.BytesIO ()
    contents = []
    with tarfile.open (fileobj=buf, mode='w', format=tarfile.GNU_FORMAT) as t:
        for i, n in enumerate (c['sizes']):
            d = b'\0'*n if c.get ('zeros') else rng.randbytes (n)
            ti = tarfile.TarInfo (f'f{i}')
            ti.size = n
            if n == 0 and c.get ('dirs'): ti.type = tarfile.DIRTYPE
            if n and c.get ('dirs'): ti.type = [tarfile.REGTYPE, tarfile.AREGTYPE, tarfile.CONTTYPE][i%3]
            t.addfile (ti, io.BytesIO (d))
            contents.append (d)
        used = t.offset
    raw = buf.getvalue ()[:used]
    if c['end'] == 'full': raw = buf.getvalue ()
    elif c['end'] == 'one': raw += b'\0'*512
    got = []
    for x in filterTar (io.BytesIO (raw)):
        got.append (x.read ())
        expect (len (got) <= len (c['sizes']), 'too many members')
    want = [d for d in contents if d]
    eq ([len (x) for x in got], [len (x) for x in want], 'member sizes')
    expect (got == want, 'member contents differ')
    # results drawn first, read later
    for x, w in zip (list (filterTar (io.BytesIO (raw))), want):
        expect (x.read () == w, 'content differs when read later')
