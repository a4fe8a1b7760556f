from common import *
from refmodel import *
import yaml, itertools
RULE = 'the optimizer command run on generated layouts with unique texts and random statistics, pins, limits, mutations, models; non-trivial: at least 1 step'
CASE_SECONDS = 60
def nontrivial (c): return c['steps'] > 0
NAMES = sorted (MODELS['mod01']['baselineEffort'])
MODKEYS = ['El_shift', 'Er_shift', 'Dl_caps', 'Fr_altgr']
def fixed ():
    yield dict (seed=1, steps=0, argv=[], nl=2, nt=5)
    yield dict (seed=2, steps=30, argv=['-p', '0;1'], nl=2, nt=20)
    yield dict (seed=3, steps=30, argv=['-r', '-p', '0,B*;1,C*'], nl=3, nt=20)
    yield dict (seed=4, steps=10, argv=['--triad-limit', '5', '-m', 'salvo'], nl=3, nt=20)
    yield dict (seed=5, steps=0, argv=['-s', '0,Dl1:1,Dl2', '-s', '1,Dl1:0,Dl2'], nl=2, nt=20)
    yield dict (seed=7, steps=0, argv=['-r'], nl=3, nt=9, lm=True)
    yield dict (seed=8, steps=0, argv=['--triad-limit', '2'], nl=2, nt=7, ties=True)
    yield dict (seed=9, steps=5, argv=['--triad-limit', '4'], nl=3, nt=8, ties=True)
    yield dict (seed=6, steps=5, argv=['-s', '0,Dl1:0,Dl2', '-p', '0,Dl1'], nl=2, nt=9)
def gen (rng, i):
    nl = rng.randint (1, 4)
    argv = []
    if rng.random () < .4:
        argv += ['-p', ';'.join (rng.choice ([str (rng.randrange (nl)), f'{rng.randrange (nl)},{rng.choice (["B*", "C*", "Dl*", "Er3"])}']) for _ in range (rng.randint (1, 2)))]
    elif rng.random () < .3:
        argv += ['-r']
    if rng.random () < .5: argv += ['--triad-limit', str (rng.choice ([1, 3, 10]))]
    if rng.random () < .3: argv += ['-m', 'salvo']
    if rng.random () < .3: argv += ['-s', f'{rng.randrange (nl)},Dl1:{rng.randrange (nl)},Dr3']
    return dict (seed=rng.randrange (2**31), steps=rng.choice ([0, 1, 5, 25]), argv=argv, nl=nl, nt=rng.choice ([1, 4, 12]), lm=rng.random () < .3, ties=rng.random () < .2)
def check (c):
    import lulua.optimize as O
    from lulua.stats import TriadStats
    from lulua.writer import Writer
    rng = random.Random (c['seed'])
    letters = [b.name for b in letterButtons ()]
    modsets = [[[]], [['El_shift'], ['Er_shift']], [['El3']] if c.get ('lm') else [['Dl_caps']], [['Fr_altgr']]][:c['nl']]
    allnames = [n for l, r in ROWNAMES for n in (l + ' ' + r).split ()]
    used = {m for ms in modsets for x in ms for m in x}
    pool = [chr (cp) for cp in range (0x621, 0x64b)] + [chr (cp) for cp in range (0x4e00, 0x4e00 + 300)]
    rng.shuffle (pool)
    spec = []
    for ms in modsets:
        lay = {}
        for b in letters:
            if b not in used and rng.random () < .8: lay[b] = pool.pop ()
        for b in ('Fl_space', 'CD_ret', 'Cl_tab'):
            if rng.random () < .5: lay[b] = pool.pop ()
        spec.append ([ms, lay])
    movable = [b for b in letters if b not in used and frozenset ([b])]
    data = dict (name='gen', layout=[dict (modifier=ms, layer=lay) for ms, lay in spec])
    ks = [(i, b) for i, (ms, lay) in enumerate (spec) for b in lay if b in MODELS['mod01']['baselineEffort'] and b in movable]
    ts = TriadStats (Writer (layout ('ar-lulua')))
    ref = []
    n = 0
    while len (ref) < c['nt'] and n < 1000:
        n += 1
        t = [rng.choice (ks) for _ in range (3)]
        cb = tuple (comb (rng.choice (spec[i][0]), b) for i, b in t)
        if cb in ts.triads: continue
        ts.triads[cb] = rng.randint (1, 3) if c.get ('ties') else len (ref)*7 + rng.randint (1, 6)
        ref.append ((t, ts.triads[cb]))
    items = list (ts.triads.items ()); rng.shuffle (items)
    ts.triads.clear ()
    for k, v in items: ts.triads[k] = v
    with scratch () as d:
        f = os.path.join (d, 'gen.yaml')
        with open (f, 'w') as fd: yaml.safe_dump (data, fd, allow_unicode=True)
        random.seed (c['seed'])
        with stdio (pickle.dumps ({'triads': ts}), ['lulua-optimize', '-l', f, '-n', str (c['steps'])] + c['argv']) as o:
            r = O.optimize ()
    eq (r, 0, 'exit code')
    out = o.out.decode ('utf-8')
    new = yaml.safe_load (out)
    energy = [l for l in out.split ('\n') if l.startswith ('# energy:')]
    eq (len (energy), 1, 'energy lines')
    energy = float (energy[0].split (':')[1])
    eq ([set (map (frozenset, l['modifier'])) for l in new['layout']], [set (map (frozenset, ms)) for ms, lay in spec], 'modifiers')
    eq (sorted (t for l in new['layout'] for t in l['layer'].values ()), sorted (t for ms, lay in spec for t in lay.values ()), 'texts')
    where = dict ((t, (i, b)) for i, l in enumerate (new['layout']) for b, t in l['layer'].items ())
    for i, (ms, lay) in enumerate (spec):
        for b, t in lay.items ():
            if b not in movable:
                eq (where[t], (i, b), f'position of immovable {t}')
            else:
                expect (where[t][1] in movable, f'{t} moved to {where[t]}')
    # pins (given relative to the layout after -s)
    if '-p' in c['argv'] and '-s' not in c['argv']:
        from fnmatch import fnmatch
        for p in c['argv'][c['argv'].index ('-p')+1].split (';'):
            l, *m = p.split (',', 1)
            for b, t in spec[int (l)][1].items ():
                if not m: eq (where[t][0], int (l), f'layer of {t} (pinned)')
                elif fnmatch (b, m[0]): eq (where[t], (int (l), b), f'position of pinned {t}')
    # energy of the emitted layout
    ref.sort (key=lambda x: -x[1])
    model = 'salvo' if 'salvo' in c['argv'] else 'mod01'
    def part (t, w):
        pos = [where[spec[i][1][b]] for i, b in t]
        return w*refEffortNames (model, [(frozenset (new['layout'][i]['modifier'][0]), b) for i, b in pos]), w
    limit = int (c['argv'][c['argv'].index ('--triad-limit')+1]) if '--triad-limit' in c['argv'] else len (ref)
    if limit < len (ref):
        # any of the equally frequent ones
        last = ref[limit-1][1]
        sure, tied = [x for x in ref if x[1] > last], [x for x in ref if x[1] == last]
        choices = [sure + list (x) for x in itertools.islice (itertools.combinations (tied, limit - len (sure)), 1000)]
    else: choices = [ref]
    parts = dict ((id (x), part (*x)) for x in ref)
    efforts = [sum (parts[id (x)][0] for x in l) / sum (x[1] for x in l) for l in choices]
    expect (any (abs (energy - e) < 2e-4 for e in efforts), f'reported energy {energy}, effort of the emitted layout {efforts[:5]}')
    if c['steps'] == 0 and '-r' not in c['argv']:
        # only the requested mutations
        m = dict (((i, b), (i, b)) for i in range (len (spec)) for b in movable)
        for j, a in enumerate (c['argv']):
            if a == '-s':
                x, y = [tuple (z.split (',')) for z in c['argv'][j+1].split (':')]
                x, y = (int (x[0]), x[1]), (int (y[0]), y[1])
                m[y], m[x] = m[x], m[y]
        for i, (ms, lay) in enumerate (spec):
            for b, t in lay.items ():
                if b in movable: eq (where[t], m[(i, b)], f'position of {t} without optimization')
