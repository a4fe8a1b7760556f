from common import *
from refmodel import *
def genEvents (rng, i, n=None):
    n = n if n is not None else rng.choice ([0, 1, 2, 3, 4, 5, 6, 8, 12, 25, 60] + ([400] if i % 40 == 0 else []))
    mode = rng.randint (0, 4)
    names = [x for x in FINGERMAP if x != 'Fl_fn']
    if mode == 0: names = rng.sample (names, 2)
    elif mode == 1: names = rng.sample (names, 3) + ['Fl_space', 'CD_ret', 'Cl_tab', 'Fr_space']
    elif mode == 2: names = [x for x in names if FINGERMAP[x][0] == rng.choice ([1, 2])] or names
    skip = rng.choice ([0, .05, .15, .4])
    mods = ('El_shift', 'Er_shift', 'Dl_caps', 'Fr_altgr') if mode != 3 else tuple (rng.sample (names, 2))
    return [genEvent (rng, names, skip, mods) for _ in range (n)]
def textWriter (events):
    """ a writer whose layout has a text for every combination used """
    from lulua.writer import Writer
    layers = {}
    for e in events:
        if e[0] == 'c':
            layers.setdefault (tuple (sorted (e[1])), {})[e[2]] = 'اب\u064e .ت'[sum (map (ord, e[2] + ''.join (e[1]))) % 6]
    return Writer (mkLayout ([[[list (m)], l] for m, l in layers.items ()]))
def run (cls, events, writer=None):
    from lulua.writer import Writer
    s = cls (writer or (textWriter (events) if cls.name == 'words' else Writer (layout ('ar-lulua'))))
    for e in events:
        s.process (mkEvent (e))
    return s
def rejects (cls):
    """ non-events are rejected """
    s = run (cls, [['c', [], 'Dl1'], ['c', [], 'Dr2']])
    import copy as c
    for bad in (None, 'a', 1, (), ['x'], object ()):
        try:
            s.process (bad)
        except ValueError:
            continue
        raise Fail (f'{bad!r} was accepted as event')
    return s
