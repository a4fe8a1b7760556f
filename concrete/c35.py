from common import *
import argparse, math
RULE = 'random word counts (ties, large and small shares, no words) fed to the word list command; non-trivial: at least three words'
def nontrivial (c): return len (c['words']) > 2
def fixed ():
    yield dict (words={})
    yield dict (words={'ا': 1})
    yield dict (words={'ا': 7, 'ب': 7, 'ت': 7})
    yield dict (words={'ا': 1, 'ب': 10**12, 'ت': 2})
    yield dict (words={'ا': 1, 'ب': 10**20, 'ت': 2})
    yield dict (words=dict ((chr (0x628 + i % 10) + chr (0x633 + i // 10 % 10) + chr (0x641 + i // 100 % 8) + 'ا'*(i // 800), 1 + i * 7 % 50) for i in range (2500)))
    yield dict (words=dict ((chr (0x628 + i) + 'ا'*(i % 3), 1 + i % 4) for i in range (20)))
def gen (rng, i):
    words = {}
    for _ in range (rng.randint (0, 40)):
        words[''.join (rng.choice ('ابتثجحخدذرزسشصضطظعغفقكلمنهوي\u0654\u064e') for _ in range (rng.randint (1, 8)))] = rng.choice ([1, 1, 2, rng.randint (1, 9), rng.randint (1, 10**6), 10**9])
    return dict (words=words)
def check (c):
    from lulua import stats as S
    words = S.WordStats (None)
    for k, v in c['words'].items (): words.words[k] += v
    with stdio (pickle.dumps (dict (words=words))) as o: S.latinImeDict (argparse.Namespace ())
    lines = [l for l in o.out.decode ().splitlines () if l.strip ()]
    n = next ((i for i, l in enumerate (lines) if l.startswith (' word=')), len (lines))
    expect (any (l.startswith ('dictionary=main:ar,locale=ar,') for l in lines[:n]) and all (l.startswith (('#', 'dictionary=')) for l in lines[:n]), 'header', lines[:n])
    total, last, seen = sum (c['words'].values ()), None, []
    for l in lines[n:]:
        expect (l.startswith (' word=') and l.count (',f=') == 1, 'word line', l)
        word, f = l[len (' word='):].split (',f=')
        expect (word in c['words'], 'a counted word', word)
        seen.append (word)
        v = c['words'][word]
        expect (last is None or v <= last, 'more frequent words come first', word)
        last = v
        expect (f.lstrip ('-').isdigit () and int (f) <= 255 and abs (int (f) - 255 - math.log (v/total)/math.log (1.15)) <= .5 + 1e-6, 'frequency class', (word, v, total, f))
    eq (sorted (seen), sorted (c['words']), 'every word exactly once')
