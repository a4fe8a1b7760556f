from common import *
from decimal import Decimal, localcontext
from fractions import Fraction
RULE = 'random numbers of every magnitude around every unit and rounding boundary, random strings; non-trivial: all'
def fixed ():
    for u in (1, 10**3, 10**6, 10**9, 10**12):
        for n in (999, 1000, 1001, 999.9, 999.94, 999.95, 999.96, 1, 0, 0.05, 0.04, 1.05, 12345.678):
            yield dict (n=str (Decimal (str (n)) * u)); yield dict (n=str (-Decimal (str (n)) * u))
    yield dict (s=''.join (map (chr, range (128)))); yield dict (s='')
    for f in ('1/3', '1/2', '0', '1', '-5/7', '7/3', '1/11', '1/20', '99/100', '1/21', '3/22'): yield dict (f=f, m=10)
    yield dict (f='1/2', m=1); yield dict (f='1/3', m=1)
def gen (rng, i):
    k = i % 3
    if k == 0:
        e = rng.randint (0, 14)
        n = rng.randrange (10**e, 10**(e+1))
        if rng.random () < .3: n = 10**e - rng.randint (0, 60)
        if rng.random () < .5: return dict (n=str (n))
        return dict (n=str (Decimal (n) / 10**rng.randint (0, 4)))
    if k == 1: return dict (s=''.join (rng.choice ('0123456789,. -a٠\u2007x+e%') for _ in range (rng.randint (0, 20))))
    return dict (f=f'{rng.randint (-2000, 2000)}/{rng.randint (1, 400)}', m=rng.choice ([10, 10, 1, 2, 3, 20]))
UN = {'en': ['', 'thousand', 'million', 'billion'], 'ar': ['', 'ألف', 'مليون', 'مليار']}
def check (c):
    from lulua.report import approx, fraction, arabnum, numspace
    if 'n' in c:
        n = Fraction (c['n'])
        for lang in UN:
          for arg in [Decimal (c['n'])] + ([int (c['n'])] if '.' not in c['n'] and 'E' not in c['n'] else [float (c['n'])]):
            n = Fraction (arg)
            v, u = approx (arg, lang) if lang != 'en' else approx (arg)
            expect (u in UN[lang], 'unit', u)
            i = UN[lang].index (u)
            v = Fraction (v)
            expect (v * 10 == int (v * 10), 'more than one decimal', v)
            expect (abs (v * 1000**i - n) * 20 <= 1000**i * (1 + Fraction (1, 10**9)), 'shown', v, u, 'for', arg)
            expect (v < 1000 or i == 3, 'value too large for unit', v, u)
            if i > 0:
                # the next smaller unit would have shown at least 1000.0
                below = n / 1000**(i-1)
                expect (below >= Fraction ('999.95') * (1 - Fraction (1, 10**9)), 'unit too large', v, u, 'for', arg)
    elif 's' in c:
        m = dict (zip ('0123456789,.', '٠١٢٣٤٥٦٧٨٩٬٫'))
        eq (arabnum (c['s']), ''.join (m.get (x, x) for x in c['s']), 'arabnum')
        eq (numspace (c['s']), ''.join ('\u2007' if x == ' ' else x for x in c['s']), 'numspace')
    else:
        f = Fraction (c['f'])
        for arg in (f, float (f)):
            s = fraction (arg, c['m']) if c['m'] != 10 else fraction (arg)
            expect (s.count ('\u2044') == 1, s)
            a, b = map (int, s.split ('\u2044'))
            expect (1 <= b <= c['m'], 'denominator', s)
            g = Fraction (a, b)
            eq ((g.numerator, g.denominator), (a, b), 'lowest terms')
            x = Fraction (arg)
            for d in range (1, c['m']+1):
                for nn in (int (x*d)-1, int (x*d), int (x*d)+1):
                    expect (abs (g-x) <= abs (Fraction (nn, d)-x), s, 'is not closest to', arg)
