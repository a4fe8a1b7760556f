"""Independent reference semantics of the typing pipeline (oracle side)."""
from common import *

def refLongest (typ, s):
    best = None
    for n in range (1, min (len (s), max ((len (t) for t in typ), default=0)) + 1):
        if s[:n] in typ:
            best = s[:n]
    return best

def score (names):
    return sum (1 if FINGERMAP[n][0] == L else -1 for n in names)

def refChoose (combs, prev):
    """ combs: list of (frozenset modifier names, button name); prev: same or None """
    if len (combs) == 1:
        return combs[0]
    def key (c):
        mods, btn = c
        keys = list (mods) + [btn]
        if prev is None:
            pb = 1
        else:
            pb = abs (score (list (prev[0]) or [prev[1]]) + score ([btn]))
        return (len (keys), abs (score (keys)), pb)
    best = None
    for c in combs:
        if best is None or key (c) < key (best):
            best = c
    return best

def refType (spec, text):
    """ → list of (match, event); event ('c', mods, btn) or ('s', char) """
    typ = typable (spec)
    pos, prev, out = 0, None, []
    while pos < len (text):
        m = refLongest (typ, text[pos:])
        if m is None:
            out.append ((None, ('s', text[pos])))
            pos += 1
        else:
            c = refChoose (typ[m], prev)
            out.append ((m, ('c', c[0], c[1])))
            prev = c
            pos += len (m)
    return out

def normEvents (events):
    """ JSON events → ('c', frozenset, name) / ('s', ch) """
    return [('s', e[1]) if e[0] == 's' else ('c', frozenset (e[1]), e[2]) for e in events]

def inc (d, k, n=1):
    d[k] = d.get (k, 0) + n

def refSimple (ev):
    b, c, u = {}, {}, {}
    for e in ev:
        if e[0] == 's':
            inc (u, e[1])
        else:
            for n in list (e[1]) + [e[2]]:
                inc (b, n)
            inc (c, (e[1], frozenset ([e[2]])))
    return b, c, u

IGNORED = {'Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'}
def refTriads (ev):
    out, seq = {}, []
    for e in ev:
        if e[0] == 's':
            seq = []
        elif e[2] not in IGNORED:
            seq.append ((e[1], frozenset ([e[2]])))
            if len (seq) >= 3:
                inc (out, tuple (seq[-3:]))
    return out

def refRuns (ev):
    """ → ({hand: {len: n}}, {(hand, finger): {len: n}}) of completed runs """
    res = []
    for f in (lambda n: FINGERMAP[n][0], lambda n: FINGERMAP[n]):
        out, cur, n = {}, None, 0
        for e in ev:
            if e[0] == 's':
                cur, n = None, 0
                continue
            k = f (e[2])
            if cur is not None and k != cur:
                inc (out.setdefault (cur, {}), n)
                n = 0
            cur = k
            n += 1
        res.append (out)
    return res

def refWords (items):
    """ items: list of typed text, or None for a skip """
    out, w = {}, ''
    for t in items:
        if t is None:
            w = ''
            continue
        for ch in t:
            if unicodedata.category (ch) in ('Lo', 'Mn'):
                w += ch
            else:
                if w:
                    inc (out, w)
                w = ''
    return out

# -- observation of the real statistics objects -----------------------------
def nz (d):
    return dict ((k, v) for k, v in d.items () if v != 0)

def obsSimple (s):
    return (nz (dict ((b.name, v) for b, v in s.buttons.items ())),
            nz (dict ((combName (c), v) for c, v in s.combinations.items ())), nz (dict (s.unknown)))

def obsTriads (s):
    return nz (dict ((tuple (combName (c) for c in t), v) for t, v in s.triads.items ()))

def obsRuns (s):
    h = dict ((int (k), nz (dict (v))) for k, v in s.perHandRunlenDist.items () if nz (dict (v)))
    f = dict (((int (k[0]), int (k[1])), nz (dict (v))) for k, v in s.fingerRunlenDist.items () if nz (dict (v)))
    return [h, f]

def obsWords (s):
    return nz (dict (s.words))

# -- carpalx reference ------------------------------------------------------
def refHand (h):
    a, b, c = h
    if a == b == c:
        return 2
    if a == c:
        return 1
    return 0

def refRow (r):
    a, b, c = r
    if a == b == c:
        return 0
    if a == b or b == c:
        return 1 if c > a else 2
    if a < b < c:
        return 4
    if a > b > c:
        return 6
    # zigzag
    down = max (b-a, c-b)
    up = max (a-b, b-c)
    if max (down, up, abs (a-c)) <= 1:
        return 3
    return 5 if down > 1 else 7

def refFinger (f, t):
    n = [x[1] if x[0] == L else 11-x[1] for x in f]
    a, b, c = n
    rep = len (set (t)) < 3
    if a == b == c:
        return 5 if rep else 7
    if len (set (n)) == 3:
        if a < b < c or a > b > c:
            return 0
        if a > c > b or a < c < b:
            return 2
        return 3
    if a <= b <= c or a >= b >= c:
        return 1 if rep else 6
    return 4

def refEffort (params, triad, hf, row, base):
    """ triad: three lists of hashable keys; hf(k) → (hand, finger), row(k), base(k) → effort; params: dict """
    k1, k2, k3, kS = params['k123S']
    def nested (f):
        b = [sum (f (k) for k in c) + (len (c)-1)*kS for c in triad]
        return k1*b[0]*(1+k2*b[1]*(1+k3*b[2]))
    def pen (k):
        h, f = hf (k)
        w = params['w0HRF']
        return w[0] + w[1]*params['pHand'][h] + w[2]*params['pRow'][row (k)] + w[3]*params['pFinger'][h][f]
    fH, fR, fF = params['fHRF']
    s = None
    for x in triad[0]:
        for y in triad[1]:
            for z in triad[2]:
                t = (x, y, z)
                v = fH*refHand ([hf (k)[0] for k in t]) + fR*refRow ([row (k) for k in t]) + fF*refFinger ([hf (k) for k in t], t)
                s = v if s is None or v < s else s
    kb_, kp, ks = params['kBPS']
    return kb_*nested (base) + kp*nested (pen) + ks*s

def _models ():
    common = dict (kBPS=(0.3555, 0.6423, 0.4268), k123S=(1.0, 0.367, 0.235, 1.0), w0HRF=(0.0, 1.0, 1.3088, 2.5948),
        pHand={L: 0.0, R: 0.0}, pRow=(1.5, 0.5, 0.0, 1.0, 1.5), fHRF=(1.0, 0.3, 0.3))
    base = {}
    def put (names, vals):
        base.update (zip (names.split (), vals))
    put ('Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7 Br6 Br5 Br4 Br3 Br2 Br1', [5,5,4,4,4,3.5,4.5,4,4,4,4,4,4.5])
    put ('Cl1 Cl2 Cl3 Cl4 Cl5 Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1', [2,2,2,2,2.5,3,2,2,2,2.5,4,6])
    put ('Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5 Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1', [2,0,0,0,0,2,2,0,0,0,0,2,4])
    put ('El_shift El1 El2 El3 El4 El5 El6 Er5 Er4 Er3 Er2 Er1 Er_shift Fr_altgr', [4,4,2,2,2,2,3.5,2,2,2,2,2,4,4])
    sal = dict (base, Cl5=2.3, Cr6=1.9, Cr3=2.2, Dl5=1.8, Dr7=1.8)
    pf = {THUMB: 0.0, INDEX: 0.0, MIDDLE: 0.0, RING: 0.5, LITTLE: 1.0}
    return dict (mod01=dict (common, pFinger={L: pf, R: dict (pf)}, baselineEffort=base),
        salvo=dict (common, pFinger={
            L: {THUMB: 0.0, INDEX: 1-(6.09/6.57), MIDDLE: 1-(5.65/6.57), RING: 1-(4.54/6.57), LITTLE: 1-(3.77/6.57)},
            R: {THUMB: 0.0, INDEX: 1-(6.57/6.57), MIDDLE: 1-(6.37/6.57), RING: 1-(5.08/6.57), LITTLE: 1-(4.27/6.57)}},
            baselineEffort=sal))
MODELS = _models ()
ROWOF = dict ((n, i) for i, (l, r) in enumerate (ROWNAMES) for n in (l + ' ' + r).split ())

def refEffortNames (model, triad):
    """ triad: three (frozenset modifier names, button name or frozenset) on the standard keyboard """
    p = MODELS[model]
    t = [list (m) + (list (b) if isinstance (b, frozenset) else [b]) for m, b in triad]
    return refEffort (p, t, lambda k: FINGERMAP[k], lambda k: ROWOF[k], lambda k: p['baselineEffort'][k])

def close (a, b, tol=1e-9):
    return abs (a-b) <= tol * max (1, abs (a), abs (b))
