from common import *; from refmodel import *; from evgen import *
import operator
RULE = 'random groups of statistics merged in random order and grouping, also through the combine command; non-trivial: at least two non-empty parts'
def nontrivial (c): return len ([p for p in c.get ('parts', c.get ('dicts')) if p]) > 1
def fixed ():
    a = [['c', [], n] for n in ('Dl1', 'Dr1', 'Dl2', 'Dl2', 'Dr1', 'Fl_space', 'Cl1')] + [['s', 'q']]
    yield dict (parts=[a, a], order=[0, 1], cmd=True)
    yield dict (parts=[a, [], a[2:]], order=[2, 0, 1], cmd=True)
    yield dict (dicts=[{'a': 1}, {'a': 2, 'b': 3}])
    yield dict (dicts=[{'x': {'a': 1}}, {'x': {'a': 2, 'b': 5}}])
    yield dict (dicts=[{}, {'x': 0, 'y': -1}])
def gen (rng, i):
    if i % 5 == 4:
        def d (depth):
            if depth == 0:
                return rng.randint (-3, 9)
            return dict ((k, d (depth-1)) for k in rng.sample ('abcdef', rng.randint (0, 6)))
        x, y = d (1), d (1)
        if rng.random () < .4:
            x, y = d (2), d (2)
            for k in y:
                x.setdefault (k, {})
        return dict (dicts=[x, y])
    parts = [genEvents (rng, 1, rng.choice ([0, 1, 4, 9, 20])) for _ in range (rng.randint (1, 5))]
    order = list (range (len (parts)))
    rng.shuffle (order)
    return dict (parts=parts, order=order, cmd=i % 20 == 0)
def obs (s):
    return {'simple': obsSimple, 'triads': obsTriads, 'runlen': obsRuns, 'words': obsWords}[s.name] (s)
def add (a, b):
    if isinstance (a, dict) or isinstance (b, dict):
        r = dict (a)
        for k, v in b.items ():
            r[k] = add (r[k], v) if k in r else v
        return r
    if isinstance (a, (tuple, list)):
        return type (a) (add (x, y) for x, y in zip (a, b))
    return a + b
def check (c):
    from lulua.stats import allStats, updateDictOp, makeCombined
    if 'dicts' in c:
        a, b = copy.deepcopy (c['dicts'])
        b0 = copy.deepcopy (b)
        updateDictOp (a, b, operator.add)
        eq (a, add (c['dicts'][0], c['dicts'][1]), 'merged dictionary'); eq (b, b0, 'merged-in dictionary')
        return
    # the classes the statement names
    eq (sorted (x.name for x in allStats), ['runlen', 'simple', 'triads', 'words'], 'kinds of statistics')
    for cls in allStats:
        parts = [run (cls, p) for p in c['parts']]
        want = [copy.deepcopy (obs (p)) for p in parts]
        total = None
        for w in want:
            total = w if total is None else add (total, w)
        # sequential into a fresh one, in the given order
        t = cls (textWriter ([e for p in c['parts'] for e in p]))
        for i in c['order']:
            t.update (parts[i])
        eq (obs (t), total, f'{cls.name} merged')
        for i, p in enumerate (parts):
            eq (obs (p), want[i], f'{cls.name} source {i} after merging')
        # merging and processing more does not touch the sources
        t.update (t2 := run (cls, c['parts'][0]))
        for e in c['parts'][-1]:
            t.process (mkEvent (e))
        for i, p in enumerate (parts):
            eq (obs (p), want[i], f'{cls.name} source {i} after using the target')
        # grouped: fold from the right
        ps = [run (cls, p) for p in c['parts']]
        while len (ps) > 1:
            b = ps.pop ()
            ps[-1].update (b)
        eq (obs (ps[0]), total, f'{cls.name} merged from the right')
    if c.get ('cmd'):
        import argparse
        from lulua.stats import combine
        data = b''
        for p in c['parts']:
            r = dict ((cls.name, run (cls, p)) for cls in allStats)
            data += pickle.dumps (r, pickle.HIGHEST_PROTOCOL)
        with stdio (data) as o:
            combine (argparse.Namespace (keyboard='ibmpc105'))
        res = pickle.loads (o.out)
        for cls in allStats:
            total = None
            for p in c['parts']:
                w = obs (run (cls, p))
                total = w if total is None else add (total, w)
            eq (obs (res[cls.name]), total, f'combine: {cls.name}')
