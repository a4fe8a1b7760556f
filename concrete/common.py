"""Shared helpers of the runtime-contract (concrete) layer.  Runs the real,
uninstrumented code of /repo with /opt/venv/bin/python."""
import ast, glob, json, os, random, sys, unicodedata, io, tempfile, contextlib, pickle, copy
REPO = os.environ.get('VERIF_REPO', '/repo')

class Fail (Exception):
    """ The contract was violated on this input """

def expect (cond, *msg):
    if not cond:
        raise Fail (' '.join (str (m) for m in msg))

def eq (got, want, what=''):
    if not (got == want):
        raise Fail (f'{what}: got {got!r}, contract says {want!r}'[:1500])

# -- literals of the current source, as hints for the generators -----------
_mined = None
def mined ():
    """ (strings, ints) occurring as literals in the current source """
    global _mined
    if _mined is None:
        strs, ints = set (), set ()
        for f in sorted (glob.glob (f'{REPO}/lulua/*.py')):
            if os.path.basename (f).startswith ('test_'):
                continue
            try:
                t = ast.parse (open (f, encoding='utf-8').read ())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk (t):
                if isinstance (n, ast.Constant):
                    if isinstance (n.value, str) and len (n.value) < 40:
                        strs.add (n.value)
                    elif isinstance (n.value, int) and not isinstance (n.value, bool):
                        ints.add (n.value)
        _mined = (sorted (strs), sorted (ints))
    return _mined

def minedIn (*files):
    """ int literals of some source files, with neighbours """
    out = set ()
    strs = set ()
    for f in files:
        try:
            t = ast.parse (open (f'{REPO}/lulua/{f}', encoding='utf-8').read ())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk (t):
            if isinstance (n, ast.Constant):
                if isinstance (n.value, str) and len (n.value) < 40:
                    strs.add (n.value)
                elif isinstance (n.value, int) and not isinstance (n.value, bool):
                    out |= {n.value-1, n.value, n.value+1}
    return sorted (out), sorted (strs)

# -- independent reference tables ------------------------------------------
L, R = 1, 2
LITTLE, RING, MIDDLE, INDEX, THUMB = 1, 2, 3, 4, 5
def _fm ():
    m = {}
    def put (side, names, fingers):
        for n, f in zip (names.split (), fingers):
            m[n] = (side, f)
    put (L, 'Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7', [1,1,1,2,3,4,4])
    put (R, 'Br6 Br5 Br4 Br3 Br2 Br1 Br_bs', [4,4,3,2,1,1,1])
    put (L, 'Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5', [1,1,2,3,4,4])
    put (R, 'Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret', [4,4,3,2,1,1,1,1])
    put (L, 'Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5', [1,1,2,3,4,4])
    put (R, 'Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1', [4,4,3,2,1,1,1])
    put (L, 'El_shift El1 El2 El3 El4 El5 El6', [1,1,1,2,3,4,4])
    put (R, 'Er5 Er4 Er3 Er2 Er1 Er_shift', [4,4,3,2,1,1])
    put (L, 'Fl_ctrl Fl_fn Fl_win Fl_alt Fl_space', [1,1,5,5,5])
    put (R, 'Fr_space Fr_altgr Fr_win Fr_menu Fr_ctrl', [5,5,5,5,1])
    return m
FINGERMAP = _fm ()
LAYOUTS = ['ar-alramly','ar-asmo663','ar-ergoarabic','ar-idlebi','ar-khorshid','ar-linux','ar-lulua',
    'ar-malas','ar-osman','ar-osx','ar-phonetic','ar-qtaish']
ROWNAMES = [
 ('Bl1 Bl2 Bl3 Bl4 Bl5 Bl6 Bl7', 'Br6 Br5 Br4 Br3 Br2 Br1 Br_bs'),
 ('Cl_tab Cl1 Cl2 Cl3 Cl4 Cl5', 'Cr7 Cr6 Cr5 Cr4 Cr3 Cr2 Cr1 CD_ret'),
 ('Dl_caps Dl1 Dl2 Dl3 Dl4 Dl5', 'Dr7 Dr6 Dr5 Dr4 Dr3 Dr2 Dr1'),
 ('El_shift El1 El2 El3 El4 El5 El6', 'Er5 Er4 Er3 Er2 Er1 Er_shift'),
 ('Fl_ctrl Fl_win Fl_alt Fl_space', 'Fr_space Fr_altgr Fr_win Fr_menu Fr_ctrl')]

def keyboard ():
    from lulua.keyboard import defaultKeyboards
    return defaultKeyboards['ibmpc105']

_kb = None
def kb ():
    global _kb
    if _kb is None:
        _kb = keyboard ()
    return _kb

_lay = {}
def layout (name):
    if name not in _lay:
        from lulua.layout import defaultLayouts
        _lay[name] = defaultLayouts[name].specialize (kb ())
    return _lay[name]

def letterButtons (k=None):
    from lulua.keyboard import LetterButton
    return [b for b in (k or kb ()).keys () if isinstance (b, LetterButton)]

def mkLayout (spec, keyboard=None):
    """ spec: list of [modifiers: list of list of names, {button name: text}] -> KeyboardLayout built from the constructor """
    from lulua.layout import KeyboardLayout, Layer
    k = keyboard or kb ()
    b = dict ((x.name, x) for x in k.keys ())
    layers = [Layer (modifier=[frozenset (b[n] for n in m) for m in mods], layout=dict ((b[n], t) for n, t in lay.items ())) for mods, lay in spec]
    return KeyboardLayout ('gen', layers, k)

def genLayout (rng, alphabet='abcd', maxlen=3, nlayers=None, size=None):
    """ random layout spec; distinct modifiers, non-empty texts """
    names = list (FINGERMAP)
    names = [n for n in names if n != 'Fl_fn']
    modpool = ['El_shift', 'Er_shift', 'Fl_ctrl', 'Fr_ctrl', 'Fr_altgr', 'Dl_caps', 'Fl_alt', 'Fl_win', 'Dr1', 'El1']
    n = nlayers or rng.randint (1, 4)
    used = set ()
    spec = []
    for i in range (n):
        mods = []
        for _ in range (1 if i == 0 else rng.randint (1, 3)):
            m = () if i == 0 else tuple (sorted (rng.sample (modpool, rng.choice ([1, 1, 1, 2, 3]))))
            if m not in used:
                used.add (m)
                mods.append (list (m))
        lay = {}
        for b in rng.sample (names, rng.randint (0, size or 12)):
            lay[b] = ''.join (rng.choice (alphabet) for _ in range (rng.randint (1, maxlen)))
        if not mods:
            continue
        spec.append ([mods, lay])
    if not any (lay for mods, lay in spec):
        spec[0][1][rng.choice (names)] = rng.choice (alphabet)
    return spec

def typable (spec):
    """ {text: [(modifier frozenset of names, button name)]} in definition order """
    t = {}
    for mods, lay in spec:
        for b, v in lay.items ():
            for m in mods:
                t.setdefault (v, []).append ((frozenset (m), b))
    return t

def specOf (lay):
    """ layout object -> spec, read from its definition (.layers) """
    return [[[sorted (b.name for b in m) for m in l.modifier], dict ((b.name, t) for b, t in l.layout.items ())] for l in lay.layers]

def comb (mods, btn, k=None):
    from lulua.layout import ButtonCombination
    k = k or kb ()
    bm = buttonMap (k)
    return ButtonCombination (frozenset (bm[m] for m in mods), frozenset ([bm[btn]]))

_bm = {}
def buttonMap (k):
    if id (k) not in _bm:
        _bm[id (k)] = (k, dict ((x.name, x) for x in k.keys ()))
    return _bm[id (k)][1]

def combName (c):
    return (frozenset (b.name for b in c.modifier), frozenset (b.name for b in c.buttons))

def genEvent (rng, names=None, skip=0.15, mods=('El_shift', 'Er_shift', 'Dl_caps', 'Fr_altgr')):
    """ JSON event: ['s', char] or ['c', [modifier names], button name] """
    if rng.random () < skip:
        return ['s', rng.choice ('xyz \n')]
    m = [] if rng.random () < .6 else rng.sample (list (mods), rng.choice ([1, 1, 2]))
    return ['c', m, rng.choice (names or [n for n in FINGERMAP if n != 'Fl_fn'])]

def mkEvent (e):
    from lulua.writer import SkipEvent
    if e[0] == 's':
        return SkipEvent (e[1])
    return comb (e[1], e[2])

@contextlib.contextmanager
def scratch ():
    d = tempfile.mkdtemp (prefix='verif-')
    try:
        yield d
    finally:
        import shutil
        shutil.rmtree (d, ignore_errors=True)

class FakeStd:
    """ stand-in for sys.stdin/sys.stdout with .buffer """
    def __init__ (self, data=b''):
        self.buffer = io.BytesIO (data)

@contextlib.contextmanager
def stdio (stdin=b'', argv=None):
    """ run a command function in-process with given stdin; yields object with .out (bytes) .err """
    old = sys.stdin, sys.stdout, sys.stderr, sys.argv
    class O: pass
    o = O ()
    bout = io.BytesIO ()
    sout = io.TextIOWrapper (bout, encoding='utf-8', write_through=True)
    berr = io.StringIO ()
    sys.stdin = io.TextIOWrapper (io.BytesIO (stdin), encoding='utf-8')
    sys.stdout = sout
    sys.stderr = berr
    if argv is not None:
        sys.argv = argv
    try:
        yield o
    finally:
        sout.flush ()
        o.out = bout.getvalue ()
        o.err = berr.getvalue ()
        sys.stdin, sys.stdout, sys.stderr, sys.argv = old
