from common import *
from refmodel import *
RULE = 'all triples of fingers with every key-equality pattern, all triples of rows of a seven-row keyboard, and random mixtures, observed through the effort of one triad under a model that isolates the stroke path'
import itertools
def fixed ():
    fs = [(h, f) for h in (1, 2) for f in range (1, 6)]
    pats = [[0,0,0],[0,0,1],[0,1,0],[0,1,1],[0,1,2]]
    for i in range (0, 10):
        yield dict (kind='fingers', first=i)
    for i in range (0, 7):
        yield dict (kind='rows', first=i)
def gen (rng, i):
    return dict (kind='mix', n=rng.randint (0, 2**31))
_env = None
class W: pass
def env ():
    """ a keyboard with seven rows, every finger in every row, twice """
    global _env
    if _env is None:
        from lulua.keyboard import PhysicalKeyboard, Button
        from lulua.layout import KeyboardLayout, Layer
        from lulua.writer import Writer
        rows, info = [], {}
        special = {0: 'Bl1', 1: 'Cl1', 2: 'Dl1', 3: 'El1', 4: 'Fl_space'}
        extra = ['Fr_space', 'CD_ret', 'Cl_tab']
        for r in range (7):
            row = [[], []]
            for h in (1, 2):
                for f in range (1, 6):
                    for v in range (3):
                        n = f'k{r}_{h}_{f}_{v}'
                        if (h, f, v) == (1, 1, 0) and r in special:
                            n = special[r]
                        b = Button (n)
                        info[n] = (h, f, r)
                        row[h-1].append (b)
            rows.append (row)
        k = PhysicalKeyboard ('t', 't', rows)
        lay = KeyboardLayout ('t', [Layer (modifier=[frozenset ()], layout={})], k)
        from lulua.layout import Direction, FingerType
        class TW (Writer):
            __slots__ = ()
            def getHandFinger (self, button):
                h, f, r = info[button.name]
                return Direction (h), FingerType (f)
        byPos = {}
        for b in k.keys ():
            byPos.setdefault (info[b.name], []).append (b)
        _env = (k, TW (lay), byPos)
    return _env
def stroke (btns):
    from lulua.carpalx import Carpalx, ModelParams
    from lulua.layout import ButtonCombination, Direction, FingerType
    k, w, _ = env ()
    z = dict ((d, dict ((f, 0.0) for f in FingerType)) for d in Direction)
    class Z (dict):
        def __missing__ (self, k): return 0.0
    p = ModelParams (kBPS=(0, 0, 1), k123S=(1, 1, 1, 1), w0HRF=(0, 0, 0, 0), pHand={d: 0.0 for d in Direction},
        pRow=(0,)*7, pFinger=z, fHRF=(1, 10, 100), baselineEffort=Z ())
    c = Carpalx (p, w)
    c.addTriad (tuple (ButtonCombination (frozenset (), frozenset ([b])) for b in btns), 1)
    return int (round (c.effort))
def one (pos, pat):
    k, w, byPos = env ()
    cnt, btns, seen = {}, [], {}
    for p, i in zip (pos, pat):
        if i not in seen:
            j = cnt.get (p, 0); cnt[p] = j+1
            seen[i] = byPos[p][j]
        btns.append (seen[i])
    got = stroke (btns)
    want = refHand ([p[0] for p in pos]) + 10*refRow ([p[2] for p in pos]) + 100*refFinger ([(p[0], p[1]) for p in pos], [b.name for b in btns])
    eq ((got % 10, got // 10 % 10, got // 100), (want % 10, want // 10 % 10, want // 100), f'(hand, row, finger) class of (hand, finger, row) {pos}, keys {[b.name for b in btns]}')
PATS = [[0,0,0],[0,0,1],[0,1,0],[0,1,1],[0,1,2]]
def consistent (pos, pat):
    return all (pos[i] == pos[j] for i in range (3) for j in range (3) if pat[i] == pat[j])
def check (c):
    fs = [(h, f) for h in (1, 2) for f in range (1, 6)]
    if c['kind'] == 'pos':
        # counter-model of the prover
        lo = min (p[2] for p in c['pos'])
        pos = [(p[0], p[1], min (6, p[2]-lo)) for p in c['pos']]
        pat = [c['ids'].index (i) for i in c['ids']]
        if consistent (pos, pat): one (pos, pat)
    elif c['kind'] == 'fingers':
        for b in fs:
            for d in fs:
                pos = [x + (2,) for x in (fs[c['first']], b, d)]
                for pat in PATS:
                    if consistent (pos, pat):
                        one (pos, pat)
    elif c['kind'] == 'rows':
        for b in range (7):
            for d in range (7):
                one ([(1, 2, c['first']), (1, 3, b), (2, 2, d)], [0, 1, 2])
                one ([(1, 2, c['first']), (1, 2, b), (1, 2, d)], [0, 1, 2])
    else:
        rng = random.Random (c['n'])
        for _ in range (20):
            pos = [rng.choice (fs) + (rng.randrange (7),) for _ in range (3)]
            if rng.random () < .4: pos[2] = pos[0]
            if rng.random () < .3: pos[1] = pos[0]
            pat = rng.choice (PATS)
            if consistent (pos, pat):
                one (pos, pat)
