from common import *
RULE = 'every single code point (in blocks) and random strings of combining, format, space and other characters; non-trivial: all'
CASE_SECONDS = 30
def fixed ():
    yield dict (s=None)
    yield dict (blk=[0, 0x3000]); yield dict (blk=[0xd800, 0xd800])
    for s in ('  ', '\t\t', '\u200d\u200d', '\u0651\u0651', 'a\u0651', '\u0651a', '\u200da', '\b\b', '\n\n', 'لا', '\u202f', '\u202f\u202f', ' \u0651', '\xad\xad', '\u0651\u200d'): yield dict (s=s)
    for b in range (0x3000, 0x110000, 0x4000): yield dict (blk=[b, min (b+0x4000, 0x110000)])
def gen (rng, i):
    al = 'a ا\u0651\u064e\u0300\u200d\u200e\u202f\t\n\b\xad\u061c\u20e3\u0488'
    return dict (s=''.join (rng.choice (al) for _ in range (rng.randint (1, 4))))
INV = {'\t': '⭾', '\n': '↳', ' ': '\u2423', '\b': '⌦', '\u202f': '[NNBSP]'}
GOLD = {'\u200d': '[ZWJ]', '\u200c': '[ZWNJ]', '\u200e': '[LRM]', '\u200f': '[RLM]', '\u202a': '[LRE]', '\u202e': '[RLO]', '\u2066': '[LRI]', '\xad': '[SH]', '\u061c': '[ALM]', '\ufeff': '[ZWNBS]'}
def ref (t):
    if t is None: return None
    if all (unicodedata.combining (x) for x in t): return '\u25cc' + t
    if len (t) == 1 and unicodedata.category (t) == 'Cf':
        if t in GOLD: return GOLD[t]
        n = unicodedata.name (t, None)
        if n is not None:
            words = n.replace ('-', ' ').split (' ')
            # a "TO" between other words is left out
            keep = [w for j, w in enumerate (words) if not (w.upper () == 'TO' and 0 < j < len (words)-1)]
            return '[' + ''.join (w[0] for w in keep) + ']'
    return INV.get (t, t)
def check (c):
    from lulua.util import displayText
    if 'blk' in c:
        for cp in range (*c['blk']):
            t = chr (cp)
            if displayText (t) != ref (t):
                raise Fail (f'label of U+{cp:04X} is {displayText (t)!r}, contract says {ref (t)!r}')
        return
    eq (displayText (c['s']), ref (c['s']), f'label of {c["s"]!r}')
