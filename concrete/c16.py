from common import *
import subprocess
RULE = 'random creation orders of buttons with random attributes; pickles of buttons, combinations and statistics exchanged between two processes with different load orders; non-trivial: cross-process'
CASE_SECONDS = 60
def nontrivial (c): return 'save' in c
NM = ['Dl1', 'Dl2', 'Fl_space', 'a', 'b', 'ÿ', '', 'Dl1 ', 'dl1', 'x'*40]
def fixed ():
    yield dict (save=[], load=['Dr1', 'zz', 'Fl_space', 'Cl1'])
    yield dict (save=['Dl2', 'Dl1'], load=['q', 'Dl1'])
    yield dict (save=['Dr1', 'b1', 'b2'], load=[])
    yield dict (names=NM + NM[::-1])
def gen (rng, i):
    if i % 400 == 399:
        p = ['Dl1', 'Dl2', 'Fl_space', 'Er_shift', 'foo', 'bar', 'CD_ret']
        return dict (save=rng.sample (p, rng.randint (0, 7)), load=rng.sample (p, rng.randint (0, 7)))
    return dict (names=[rng.choice (NM + [f'n{rng.randrange (30)}', f'u{rng.random ()}']) for _ in range (rng.randint (1, 12))], attrs=rng.randrange (2**31))
SAVE = '''
import sys, pickle, logging; sys.path.insert (0, %(repo)r); sys.dont_write_bytecode = True
from lulua.keyboard import Button, LetterButton, MultiRowButton, defaultKeyboards
for n in %(pre)r: Button (n)
from lulua.layout import ButtonCombination, defaultLayouts
from lulua.writer import Writer, SkipEvent
from lulua.stats import SimpleStats, TriadStats, RunlenStats, WordStats
k = defaultKeyboards['ibmpc105']
w = Writer (defaultLayouts['ar-lulua'].specialize (k))
C = lambda m, b: ButtonCombination (frozenset (k[x] for x in m), frozenset ([k[b]]))
ev = [C ([], 'Dl1'), C (['El_shift'], 'Dr2'), C ([], 'Dr2'), C ([], 'Fl_space'), SkipEvent ('x'), C ([], 'Dl1'), C ([], 'Dl1'), C ([], 'Dl3'), C ([], 'Fl_space')]
st = [c (w) for c in (SimpleStats, TriadStats, RunlenStats, WordStats)]
for s in st:
    for e in ev: s.process (e)
obj = dict (buttons=[Button ('q1', width=3, isMarked=True, scancode={'xorg': 5, 'windows': [1, 2]}), LetterButton ('q2', 2), MultiRowButton ('q3', 4, width=1.5), k['Dl1'], k['CD_ret'], k['Fl_space']], combs=ev[:3], dct={k['Dl1']: 1, k['Dr2']: 2}, st=st, kb=k, lay=w.layout)
sys.stdout.buffer.write (pickle.dumps (obj, pickle.HIGHEST_PROTOCOL))
'''
LOAD = '''
import sys, pickle, json; sys.path.insert (0, %(repo)r); sys.dont_write_bytecode = True
from lulua.keyboard import Button, defaultKeyboards
for n in %(pre)r: Button (n)
%(kbfirst)s
o = pickle.loads (sys.stdin.buffer.read ())
k = defaultKeyboards['ibmpc105']
cn = lambda c: [sorted (b.name for b in c.modifier), sorted (b.name for b in c.buttons)]
from lulua.layout import ButtonCombination
C = lambda m, b: ButtonCombination (frozenset (k[x] for x in m), frozenset ([k[b]]))
si, tr, ru, wo = o['st']
r = dict (buttons=[[type (b).__name__, b.name, b.width, b.isMarked, b.scancode, getattr (b, 'span', None), b == Button (b.name), hash (b) == hash (Button (b.name))] for b in o['buttons']],
 combs=[cn (c) for c in o['combs']], look=[o['dct'].get (k['Dl1']), o['dct'].get (k['Dr2']), o['dct'].get (k['Dl2'])],
 ceq=[o['combs'][0] == C ([], 'Dl1'), o['combs'][1] == C (['El_shift'], 'Dr2'), o['combs'][1] == C (['Er_shift'], 'Dr2'), si.combinations.get (C ([], 'Dl1')), si.combinations.get (C (['El_shift'], 'Dr2'))],
 si=sorted ([b.name, v] for b, v in si.buttons.items ()), tr=sorted ([[cn (c) for c in t], v] for t, v in tr.triads.items ()),
 ru=sorted ([int (h), l, n] for h, d in ru.perHandRunlenDist.items () for l, n in d.items ()), wo=dict (wo.words),
 kb=[b.name for b in o['kb'].keys ()] == [b.name for b in k.keys ()], row=[o['kb'].getRow (k[n]) for n in ('Dl1', 'Fl_space')], txt=o['lay'].getText (C ([], 'Dl1')))
print (json.dumps (r))
'''
def py (code, data=b''):
    p = subprocess.run ([sys.executable, '-W', 'ignore', '-c', code], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50, env=dict (os.environ, PYTHONDONTWRITEBYTECODE='1'))
    if p.returncode != 0:
        raise Fail (p.stderr.decode (errors='replace')[-1200:])
    return p.stdout
def check (c):
    from lulua.keyboard import Button, LetterButton, MultiRowButton
    from lulua.layout import ButtonCombination
    if 'names' in c:
        rng = random.Random (c.get ('attrs', 0))
        bs = []
        for n in c['names']:
            k = rng.randrange (3)
            kw = dict (width=rng.choice ([1, 2.5]), isMarked=rng.random () < .5, scancode=rng.choice ([None, {'windows': [1]}]))
            bs.append ([Button, LetterButton][k] (n, **kw) if k < 2 else MultiRowButton (n, 2, **kw))
        for x, n in zip (bs, c['names']):
            eq (x.name, n, 'name')
            for y, m in zip (bs, c['names']):
                eq (x == y, n == m, f'{n!r} == {m!r}'); eq (x != y, n != m, f'{n!r} != {m!r}')
                if n == m: eq (hash (x), hash (y), 'hashes')
            expect (not (x == n), 'button equals its name')
            z = pickle.loads (pickle.dumps (x))
            expect (z == x and z.name == n and type (z) is type (x) and z.width == x.width and z.isMarked == x.isMarked and z.scancode == x.scancode and getattr (z, 'span', 0) == getattr (x, 'span', 0), 'pickle of', x)
            z = copy.deepcopy (x)
            expect (z == x and z.name == n and type (z) is type (x), 'deepcopy of', x)
        eq (len (set (bs)), len (set (c['names'])), 'distinct buttons')
        cs = []
        for _ in range (6):
            cs.append ((frozenset (rng.sample (c['names'], rng.randint (0, min (2, len (c['names']))))), frozenset ([rng.choice (c['names'])])))
        by = dict (zip (c['names'], bs))
        mk = lambda c: ButtonCombination (frozenset (by[x] for x in c[0]), frozenset (by[x] for x in c[1]))
        for a in cs:
            for b in cs:
                eq (mk (a) == mk (b), a == b, f'{a} == {b}')
                if a == b: eq (hash (mk (a)), hash (mk (b)), 'hash of combinations')
            z = pickle.loads (pickle.dumps (mk (a)))
            expect (z == mk (a) and hash (z) == hash (mk (a)), 'pickle of combination')
            expect (len (z) == len (a[0]) + len (a[1]) and sorted (x.name for x in z) == sorted (list (a[0]) + list (a[1])), 'iteration over combination')
        return
    data = py (SAVE % dict (repo=REPO, pre=c['save']))
    ref = None
    for first in ('', "defaultKeyboards['ibmpc105']"):
        r = json.loads (py (LOAD % dict (repo=REPO, pre=c['load'], kbfirst=first), data))
        kb_ = kb (); bm = buttonMap (kb_)
        def a (b): return [type (b).__name__, b.name, b.width, b.isMarked, json.loads (json.dumps (b.scancode)), getattr (b, 'span', None), True, True]
        eq (r['buttons'], [['Button', 'q1', 3, True, {'xorg': 5, 'windows': [1, 2]}, None, True, True], ['LetterButton', 'q2', 2, False, None, None, True, True],
            ['MultiRowButton', 'q3', 1.5, False, None, 4, True, True], a (bm['Dl1']), a (bm['CD_ret']), a (bm['Fl_space'])], 'buttons in another process')
        eq (r['combs'], [[[], ['Dl1']], [['El_shift'], ['Dr2']], [[], ['Dr2']]], 'combinations in another process')
        eq (r['look'], [1, 2, None], 'dictionary keyed by buttons'); eq (r['ceq'], [True, True, False, 3, 1], 'combination equality and lookup')
        eq (dict (map (tuple, r['si'])), {'Dl1': 3, 'El_shift': 1, 'Dr2': 2, 'Fl_space': 2, 'Dl3': 1}, 'button counts in another process')
        eq (r['tr'], sorted ([[[[[], ['Dl1']], [['El_shift'], ['Dr2']], [[], ['Dr2']]], 1], [[[[], ['Dl1']], [[], ['Dl1']], [[], ['Dl3']]], 1]]), 'triads in another process')
        eq (r['kb'], True, 'keyboard'); eq (r['row'], [2, 4], 'rows of pickled keyboard'); eq (r['txt'], layout ('ar-lulua').getText (comb ([], 'Dl1')), 'text')
