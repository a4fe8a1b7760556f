from common import *
from refmodel import *
RULE = 'random layout definitions (several layers, modifier alternatives, shared texts) queried with every text, prefix, extension and random input; non-trivial: at least two layers or a shared text'
def nontrivial (c): return len (c['spec']) > 1 or len (typable (c['spec'])) < sum (len (l) for m, l in c['spec'])
def fixed ():
    for n in LAYOUTS:
        yield dict (spec=specOf (layout (n)), queries=[])
    yield dict (spec=[], queries=['a', ''])
    yield dict (spec=[[[[]], {}]], queries=['a', ''])
def gen (rng, i):
    alpha = rng.choice (['ab', 'abc', 'a\u0651\u0644'])
    spec = genLayout (rng, alpha, rng.choice ([1, 2, 3, 5]))
    return dict (spec=spec, queries=[''.join (rng.choice (alpha + 'z') for _ in range (rng.randint (0, 7))) for _ in range (10)])
def names (cs): return [combName (x) for x in cs]
def probe (lay, spec, queries, k):
    from lulua.layout import ButtonCombination
    typ = typable (spec)
    want = dict ((t, [(m, frozenset ([b])) for m, b in cs]) for t, cs in typ.items ())
    qs = set (queries)
    for t in typ:
        qs |= {t, t + 'z', t[:-1], t + t, 'z' + t}
    for q in sorted (qs):
        w = refLongest (typ, q)
        try:
            g = lay (q)
        except KeyError:
            expect (w is None, f'lookup of {q!r} failed, but {w!r} is typable')
            continue
        expect (w is not None, f'lookup of {q!r} gave {g}, but nothing matches')
        eq (g[0], w, f'longest typable prefix of {q!r}')
        eq (sorted (names (g[1]), key=repr_), sorted (want[w], key=repr_), f'combinations for {w!r}')
        eq ([x for x in names (g[1])], want[w], f'order of combinations for {w!r}')
    eq (dict ((t, sorted (names (v), key=repr_)) for t, v in lay), dict ((t, sorted (v, key=repr_)) for t, v in want.items ()), 'iteration over all texts')
    bm = buttonMap (k)
    allmods = {}
    for i, (mods, l) in enumerate (spec):
        for m in mods:
            fm = frozenset (bm[x] for x in m)
            allmods[fm] = i
    for fm, i in allmods.items ():
        n, layer = lay.modifierToLayer (fm)
        eq (n, i, f'layer number of {fm}')
        eq (dict ((b.name, t) for b, t in layer.layout.items ()), spec[i][1], 'layer of modifier')
        expect (lay.isModifier (fm), 'isModifier is false for', fm)
        for b, t in spec[i][1].items ():
            eq (lay.getText (ButtonCombination (fm, frozenset ([bm[b]]))), t, f'text of {fm}+{b}')
        for b in bm:
            if b not in spec[i][1]:
                try:
                    x = lay.getText (ButtonCombination (fm, frozenset ([bm[b]])))
                except KeyError:
                    pass
                else:
                    expect (x is None, f'text {x!r} for unassigned {b}')
                break
    for b in list (bm.values ()):
        eq (list (lay.getButtonText (b)), [l.get (b.name) for m, l in spec], f'texts of {b}')
        eq (bool (lay.isModifier (frozenset ([b]))), frozenset ([b]) in allmods, f'isModifier ({b})')
    for x in (frozenset ([bm['Bl1'], bm['Bl2'], bm['Bl3'], bm['Bl4']]), frozenset ([bm['Bl7']])):
        if x not in allmods:
            expect (not lay.isModifier (x), 'isModifier true for', x)
            try:
                lay.modifierToLayer (x)
            except KeyError:
                pass
            else:
                raise Fail ('modifierToLayer found a layer for an undefined modifier')
def repr_ (c): return (sorted (c[0]), sorted (c[1]))
def check (c):
    from lulua.layout import GenericLayout, Layer, KeyboardLayout
    spec = c['spec']
    k = kb ()
    lay = mkLayout (spec)
    probe (lay, spec, c['queries'], k)
    # generic layout
    data = dict (name='gen', layout=[dict (modifier=copy.deepcopy (m), layer=dict (l)) for m, l in spec])
    g = GenericLayout.deserialize (copy.deepcopy (data))
    before = copy.deepcopy (specG (g))
    s = g.specialize (k)
    eq (specG (g), before, 'generic layout after specialize')
    eq (getattr (s, 'name', None), 'gen', 'name'); expect (s.keyboard is k, 'keyboard of specialised layout')
    eq ([[set (map (frozenset, m)), l] for m, l in specOf (s)], [[set (map (frozenset, m)), l] for m, l in spec], 'specialised layers')
    probe (s, spec, c['queries'], k)
    eq (len (g), sum (len (l) for m, l in spec), 'len of generic layout')
    eq (sorted (g.buttons ()), sorted ((b, t) for m, l in spec for b, t in l.items ()), 'buttons of generic layout')
    # copy
    cp = lay.copy ()
    expect (cp == lay, 'copy differs'); eq (cp.name, lay.name, 'name of copy')
    expect (cp.keyboard is lay.keyboard or [b.name for b in cp.keyboard.keys ()] == [b.name for b in k.keys ()], 'keyboard of copy')
    probe (cp, spec, c['queries'], k)
    for l in cp.layers:
        l.layout.clear (); l.modifier.clear ()
    probe (lay, spec, c['queries'], k)
def specG (g):
    return [[[sorted (m) for m in l.modifier], dict (l.layout)] for l in g.layers]
