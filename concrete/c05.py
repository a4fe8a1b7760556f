from common import *; from refmodel import *; from evgen import *
RULE = 'random event sequences incl. ignored keys and skips in every phase; non-trivial: at least 3 events'
def nontrivial (c): return len (c['events']) > 2
def fixed ():
    a, b, d, x = ['c', [], 'Dl1'], ['c', ['El_shift'], 'Dl1'], ['c', [], 'Dr3'], ['s', 'x']
    for ig in sorted (IGNORED):
        sp = ['c', [], ig]
        yield dict (events=[a, sp, b, sp, sp, d, a, sp, b])
        yield dict (events=[sp, a, b, x, d, sp, a, b, d])
        yield dict (events=[a, b, ['c', ['El_shift'], ig], d])
    import itertools
    for n in range (1, 6):
        for ev in itertools.product ([a, b, x, ['c', [], 'CD_ret']], repeat=n):
            yield dict (events=list (ev))
def gen (rng, i): return dict (events=genEvents (rng, i))
def check (c):
    from lulua.stats import TriadStats
    s = run (TriadStats, c['events'])
    eq (obsTriads (s), refTriads (normEvents (c['events'])), 'triads')
    rejects (TriadStats)
