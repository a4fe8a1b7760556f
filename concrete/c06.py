from common import *; from refmodel import *; from evgen import *
RULE = 'random event sequences with long and short runs and skips; non-trivial: at least 2 events'
def nontrivial (c): return len (c['events']) > 1
def fixed ():
    import itertools
    al = [['c', [], n] for n in ('Dl1', 'Dl2', 'Dr1', 'Fl_space')] + [['s', 'x']]
    for n in range (1, 5):
        for ev in itertools.product (al, repeat=n):
            yield dict (events=list (ev))
    for n in (1, 2, 9, 10, 255, 256, 300):
        yield dict (events=[al[0]]*n + [al[2]]*2 + [al[1]])
def gen (rng, i):
    ev = []
    for e in genEvents (rng, i):
        ev += [e] * (rng.choice ([1, 1, 2, 3, 12]) if e[0] == 'c' else 1)
    return dict (events=ev)
def check (c):
    from lulua.stats import RunlenStats
    s = run (RunlenStats, c['events'])
    eq (obsRuns (s), refRuns (normEvents (c['events'])), 'completed runs')
    rejects (RunlenStats)
