from common import *
import yaml
RULE = 'random keyboard and layout descriptions, deserialised and serialised repeatedly in random order with deep snapshots of inputs and objects; non-trivial: at least one non-standard button or two layers'
def nontrivial (c): return True
def fixed ():
    yield dict (shipped=True)
    yield dict (kb=dict (name='x', description='', rows=[]))
    yield dict (kb=dict (name='x', description='d', rows=[[[dict (name='a')], []]]))
    yield dict (lay=dict (name='x', layout=[]))
def gen (rng, i):
    if i % 2:
        n = [0]
        big = rng.choice ([4, 4, 4, 9])
        def b ():
            n[0] += 1
            d = dict (name=f'b{n[0]}_{rng.randrange (5)}')
            if rng.random () < .5: d['width'] = rng.choice ([1, 0.5, 2, 1.75, 1.0625, 0.3])
            if rng.random () < .3: d['isMarked'] = rng.random () < .7
            if rng.random () < .6:
                d['scancode'] = dict (xorg=rng.randrange (99))
                if rng.random () < .7: d['scancode']['windows'] = [rng.randrange (256) for _ in range (rng.randint (1, 2))]
                if rng.random () < .3: d['scancode'] = {} if rng.random () < .5 else None
            k = rng.choice (['', 'letter', 'multi', 'standard'])
            if k: d['kind'] = k
            if k == 'multi': d['span'] = rng.randint (1, 3)
            return d
        return dict (kb=dict (name=f'k{i}', description='desc', rows=[[[b () for _ in range (rng.randint (0, big))], [b () for _ in range (rng.randint (0, big))]] for _ in range (rng.randint (0, big))]))
    if i % 4 == 0:
        names = [f'n{j}' for j in range (9)]
        mod = lambda: [rng.sample (names, rng.randint (0, 4)) for _ in range (rng.randint (0, 7))]
        return dict (lay=dict (name=f'l{i}', layout=[dict (modifier=mod (), layer={n: rng.choice (['a', 'ab', '', '\u0651', ' ']) for n in rng.sample (names, rng.randint (0, 6))}) for _ in range (rng.randint (0, 8))]), plain=True)
    spec = genLayout (rng, 'ab\u0651', 3)
    return dict (lay=dict (name=f'l{i}', layout=[dict (modifier=m, layer=l) for m, l in spec]))
def normB (d):
    d = dict (d)
    k = d.pop ('kind', 'standard')
    sc = d.pop ('scancode', None)
    sc = None if not sc else dict ((a, list (b) if a == 'windows' else b) for a, b in sc.items ())
    return dict (kind=k, name=d.pop ('name'), width=d.pop ('width', 1), isMarked=bool (d.pop ('isMarked', False)), scancode=sc, span=d.pop ('span', None), rest=d)
def normK (d):
    return (d['name'], d['description'], [[[normB (b) for b in h] for h in r] for r in d['rows']])
def obsB (b):
    sc = b.scancode
    return (type (b).__name__, b.name, b.width, bool (b.isMarked), None if not sc else dict ((k, tuple (v) if k == 'windows' else v) for k, v in sc.items ()), None if not sc else type (sc.get ('windows')).__name__, getattr (b, 'span', None))
def obsK (k):
    return (k.name, k.description, [[[obsB (b) for b in h] for h in r] for r in k.rows])
KIND = {'standard': 'Button', 'letter': 'LetterButton', 'multi': 'MultiRowButton'}
def wantB (d):
    n = normB (d)
    sc = n['scancode']
    return (KIND[n['kind']], n['name'], n['width'], n['isMarked'], None if not sc else dict ((k, tuple (v) if k == 'windows' else v) for k, v in sc.items ()), None if not sc else ('tuple' if 'windows' in sc else 'NoneType'), n['span'])
def kbCheck (data):
    from lulua.keyboard import PhysicalKeyboard
    orig = copy.deepcopy (data)
    k1 = PhysicalKeyboard.deserialize (data)
    eq (data, orig, 'input of deserialize')
    want = (orig['name'], orig['description'], [[[wantB (b) for b in h] for h in r] for r in orig['rows']])
    eq (obsK (k1), want, 'deserialised keyboard')
    s1 = k1.serialize ()
    eq (obsK (k1), want, 'keyboard after serialize'); eq (normK (s1), normK (orig), 'serialised data')
    s1c = copy.deepcopy (s1)
    s2 = k1.serialize ()
    eq (s2, s1c, 'second serialisation'); eq (obsK (k1), want, 'keyboard after second serialize')
    k2 = PhysicalKeyboard.deserialize (data)
    eq (obsK (k2), want, 'keyboard deserialised again from the same data')
    k3 = PhysicalKeyboard.deserialize (s1)
    eq (obsK (k3), want, 'keyboard deserialised from serialised data'); eq (s1, s1c, 'serialised data after deserialize')
    eq (obsK (k1), want, 'first keyboard at the end')
    y = yaml.safe_load (yaml.safe_dump (k1.serialize ()))
    eq (normK (y), normK (orig), 'yaml round trip')
def obsL (g): return (g.name, [[set (map (frozenset, l.modifier)), dict (l.layout)] for l in g.layers])
def layCheck (data, plain=False):
    from lulua.layout import GenericLayout
    orig = copy.deepcopy (data)
    want = (orig['name'], [[set (map (frozenset, l['modifier'])), l['layer']] for l in orig['layout']])
    nd = lambda d: (d['name'], [[sorted (map (sorted, l['modifier'])), l['layer']] for l in d['layout']])
    g = GenericLayout.deserialize (data)
    eq (data, orig, 'input of deserialize'); eq (obsL (g), want, 'deserialised layout')
    s = g.serialize ()
    eq (nd (s), nd (orig), 'serialised data'); eq (obsL (g), want, 'layout after serialize'); eq (nd (g.serialize ()), nd (orig), 'second serialisation')
    for i, l in enumerate (s['layout']): eq ([sorted (m) for m in l['modifier']], [sorted (m) for m in orig['layout'][i]['modifier']], 'order of modifiers')
    sc = copy.deepcopy (s)
    h = GenericLayout.deserialize (s)
    expect (h == g, 'layout deserialised from serialised data differs'); eq (s, sc, 'serialised data after deserialize'); eq (obsL (h), want, 'second layout')
    if not plain: g.specialize (kb ())
    eq (obsL (g), want, 'layout after specialize'); eq (data, orig, 'input at the end')
    y = yaml.safe_load (yaml.safe_dump (g.serialize ()))
    eq (nd (y), nd (orig), 'yaml round trip')
def check (c):
    if 'shipped' in c:
        import glob
        for f in glob.glob (f'{REPO}/lulua/data/keyboards/*.yaml'): kbCheck (yaml.safe_load (open (f)))
        for f in glob.glob (f'{REPO}/lulua/data/layouts/*.yaml'): layCheck (yaml.safe_load (open (f)))
    elif 'kb' in c: kbCheck (c['kb'])
    else: layCheck (c['lay'], c.get ('plain'))
