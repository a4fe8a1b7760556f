"""C28: numbers in the report.  Any real number; decimal arithmetic is exact (the statement holds up to decimal precision)."""
from .api import *
from fractions import Fraction as Frac
assumption ('decimal arithmetic is exact (28 digits in reality); round (x, 1) of a decimal is half to even; Fraction.limit_denominator (standard library) by contract: the closest fraction with a denominator up to the limit, in lowest terms')
UN = {'en': ['', 'thousand', 'million', 'billion'], 'ar': ['', 'ألف', 'مليون', 'مليار']}
R = z3.RealSort ()
@contextlib.contextmanager
def patched (**new):
    from lulua import report
    old = {k: getattr (report, k) for k in new if hasattr (report, k)}
    for k, v in new.items (): setattr (report, k, v)
    try: yield
    finally:
        for k in new:
            if k in old: setattr (report, k, old[k])
            else: delattr (report, k)
def real (x):
    if isinstance (x, SymNum): return x if isReal (x.t) else SymNum (z3.ToReal (x.t))
    from decimal import Decimal
    return SymNum (z3.RealVal (str (Frac (Decimal (x)))))
class Dec:
    def __new__ (cls, x=0, *a): return real (x)
def approximate (lang, whole):
    def h ():
        from lulua import report
        n = CTX.fresh ('n', z3.IntSort () if whole else R)
        CTX.hintFn = lambda m: dict (n=str (m.eval (n, model_completion=True).as_long ())) if whole else hint (m.eval (n, model_completion=True))
        with patched (Decimal=Dec):
            r = run ('approx', report.approx, SymNum (n), lang)
        if not isinstance (r, tuple) or len (r) != 2: raise Unsupported ('unexpected result')
        v, u = r
        if isinstance (u, (Rope, FStr)) or num (v) is None: raise Unsupported ('unexpected result')
        prove (u in UN[lang], 'the unit is one of the language', str (u))
        k = UN[lang].index (u)
        x = real (SymNum (n)).t
        v = real (v if isinstance (v, SymNum) else v).t
        q = z3.ToInt (v * 10)
        prove (v * 10 == z3.ToReal (q), 'one decimal')
        d = v * 1000**k - x
        prove (z3.And (d * 20 <= 1000**k, d * 20 >= -1000**k), 'off by at most half a digit')
        if k < 3: prove (v < 1000, 'shown below one thousand, unless the unit is the largest')
        if k > 0: prove (x * 100 >= 99995 * 1000**(k-1), 'a smaller unit would have shown one thousand or more')
        cover (f'unit {k}')
    return h
def hint (v):
    f = Frac (v.as_fraction ())
    s = str (f.numerator) if f.denominator == 1 else None
    if s is None:
        from decimal import Decimal
        s = str (Decimal (f.numerator) / Decimal (f.denominator))
    return dict (n=s)
for lang in UN:
    for whole in (True, False): harness (f'approx {lang} {"whole" if whole else "any"} number', functions=['report.approx'], covers=[f'unit {k}' for k in range (4)]) (approximate (lang, whole))
class FracStub:
    """ Fraction, by contract """
    def __new__ (cls, n=0, d=None):
        f = object.__new__ (cls)
        if d is not None: raise Unsupported ('fraction of two numbers')
        f.x = n.x if isinstance (n, FracStub) else real (n).t
        f.limit = None
        return f
    def limit_denominator (self, m=1000000):
        f = FracStub (self)
        f.limit = num (m)
        f.a, f.b = CTX.fresh ('numerator', z3.IntSort ()), CTX.fresh ('denominator', z3.IntSort ())
        f.numerator, f.denominator = SymNum (f.a), SymNum (f.b)
        return f
    def as_integer_ratio (self): return self.numerator, self.denominator
@harness ('fraction', functions=['report.fraction'], covers=['end'])
def hf ():
    from lulua import report
    n, m = CTX.fresh ('n', R), CTX.fresh ('maxdenom', z3.IntSort ())
    CTX.assume (m >= 1)
    CTX.hintFn = lambda mo: dict (f=str (Frac (mo.eval (n, model_completion=True).as_fraction ())), m=min (mo.eval (m, model_completion=True).as_long (), 60))
    made = []
    class F (FracStub):
        def limit_denominator (self, m=1000000):
            f = FracStub.limit_denominator (self, m)
            made.append (f)
            return f
    with patched (Fraction=F):
        given = CTX.choose (2)
        r = run ('fraction', report.fraction, SymNum (n), SymNum (m)) if given else run ('fraction', report.fraction, SymNum (n))
    if len (made) != 1 or not isinstance (r, FStr): raise Unsupported ('computed in another way')
    f = made[0]
    prove (f.x == n, 'the closest fraction to the number')
    prove (f.limit == (m if given else 10), 'with a denominator up to the limit')
    ps = r.parts
    if not (len (ps) == 3 and ps[1] == '\u2044' and all (not isinstance (p, str) and p[1:] in ((-1, ''), (None, None), (None, ''), (-1, None)) for p in (ps[0], ps[2]))): raise Unsupported (f'unexpected format {ps!r}')
    prove (And (num (ps[0][0]) == f.a, num (ps[2][0]) == f.b), 'shown as numerator, fraction slash, denominator')
    cover ('end')
DIG = dict (zip (map (ord, '0123456789,.'), map (ord, '٠١٢٣٤٥٦٧٨٩٬٫')))
def conv (c):
    r = c
    for k, v in DIG.items (): r = z3.If (c == k, z3.IntVal (v), r)
    return z3.simplify (r)
class Result (Base):
    absorbs = True
    def at (self, i): return conv (self.src.at (i))
def same (r, S, T):
    if isinstance (r, str): r = Rope ('str', [('lit', r)])
    if not isinstance (r, Rope): raise Unsupported ('unexpected result')
    if len (r.segs) == 1 and r.segs[0][0] == 'sl' and r.segs[0][1] is not T:
        _, b, lo, hi = r.segs[0]
        g = CTX.fresh ('g', z3.IntSort ())
        return z3.And (hi - lo == S.n, z3.Implies (z3.And (g >= 0, g < S.n), b.at (lo + g) == conv (S.at (g))))
    return textIs (r, T, 0, S.n)
def numbers ():
    from lulua import report
    S = Base ('S')
    T = Result ('T', n=S.n)
    T.src = S
    T.anchor = lambda: 0
    CTX.absorb = T
    r = run ('arabnum', report.arabnum, S.whole ())
    prove (same (r, S, T), 'digits, comma and point replaced, everything else kept')
    cover ('end')
harness ('arabnum', functions=['report.arabnum'], covers=['end']) (numbers)
@harness ('arabnum short', functions=['report.arabnum'], mode='unroll', refute=True, bound='texts of up to 2 characters', seconds=40)
def hn ():
    from lulua import report
    S = Base ('S')
    k = CTX.choose (3)
    CTX.assume (S.n == k)
    CTX.hintFn = lambda m: dict (s=''.join (chr (m.eval (S.at (i), model_completion=True).as_long () % 0x110000) for i in range (k)))
    for i in range (k): CTX.assume (z3.And (S.at (i) > 0, S.at (i) < 0xd800))
    r = run ('arabnum', report.arabnum, Rope ('str', [('sl', S, z3.IntVal (0), z3.IntVal (k))]))
    if isinstance (r, str): r = Rope ('str', [('lit', r)])
    if not isinstance (r, Rope): raise Unsupported ('unexpected result')
    prove (And (r.lent () == k, *[z3.Implies (r.lent () == k, conv (S.at (i)) == r.codeAt (i)) for i in range (k) if must (r.lent () == k)]), 'digits, comma and point replaced, everything else kept')
    cover ('end')
