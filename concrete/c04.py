from common import *; from refmodel import *; from evgen import *
RULE = 'random event sequences over all buttons, modifiers and skips; non-trivial: at least 2 events'
def nontrivial (c): return len (c['events']) > 1
def fixed ():
    yield dict (events=[['c', ['Dl1'], 'Dl1'], ['c', ['Dl1', 'Dl2'], 'Dl1']])
    yield dict (events=[['s', ch] for ch in 'aab\n\n\x00\U0001f600'])
    yield dict (events=[['c', [], n] for n in FINGERMAP if n != 'Fl_fn'] * 2)
def gen (rng, i): return dict (events=genEvents (rng, i))
def check (c):
    from lulua.stats import SimpleStats
    s = run (SimpleStats, c['events'])
    eq (obsSimple (s), refSimple (normEvents (c['events'])), 'counts')
    r = rejects (SimpleStats)
    eq (obsSimple (r), refSimple ([('c', frozenset (), 'Dl1'), ('c', frozenset (), 'Dr2')]), 'counts after rejected event')
