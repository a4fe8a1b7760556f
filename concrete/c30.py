from common import *; from refmodel import *
import yaml, argparse
RULE = 'random statistics fed to the analysis commands; non-trivial: at least three combinations'
def nontrivial (c): return len (c['combs']) > 2
H = ['\u0627', '\u0627\u0654', '\u0627\u0655', '\u064a\u0654', '\u0648\u0654']
def fixed ():
    yield dict (name='ar-lulua', combs=[[[], 'Dl3', 5]], extra=[], words={})
    yield dict (name='ar-linux', combs=[[[], 'Dl3', 5]], extra=[], words={'a': 2, 'b': 3})
    yield dict (name='ar-osx', combs=[[[], 'Dl1', 5]], extra=[['Dl1', 10], ['Fl_space', 3]], words={})
def gen (rng, i):
    name = rng.choice (LAYOUTS)
    lay = layout (name)
    spec = specOf (lay)
    typ = typable (spec)
    combs = {}
    pool = [x for t in typ.values () for x in t]
    for m, b in rng.sample (pool, min (len (pool), rng.randint (0, 30))): combs[(tuple (sorted (m)), b)] = rng.choice ([1, 2, 7, 1000003])
    for h in H:
        if h in typ and rng.random () < .8:
            m, b = rng.choice (typ[h]); combs[(tuple (sorted (m)), b)] = rng.randint (1, 99)
    return dict (name=name, combs=[[list (m), b, n] for (m, b), n in combs.items ()], extra=[[rng.choice (ROWNAMES[rng.randrange (5)][rng.randrange (2)].split ()), rng.randint (1, 50)] for _ in range (rng.randint (0, 5))],
      words=dict ((w, rng.randint (1, 9)) for w in rng.sample (['اب', 'ت', 'ثج', 'x', 'ح'], rng.randint (0, 5))))
def check (c):
    from lulua import stats as S
    from lulua.writer import Writer
    lay = layout (c['name'])
    typ = typable (specOf (lay))
    w = Writer (lay)
    simple, words = S.SimpleStats (w), S.WordStats (w)
    btn, cc = {}, {}
    bm = buttonMap (kb ())
    for m, b, n in c['combs']:
        cb = comb (m, b)
        simple.combinations[cb] += n
        inc (cc, (frozenset (m), b), n)
        for x in m + [b]: inc (btn, x, n)
    for b, n in c['extra']: inc (btn, b, n)
    for b, n in btn.items (): simple.buttons[bm[b]] += n
    for k, v in c['words'].items (): words.words[k] += v
    total = sum (btn.values ())
    data = pickle.dumps (dict (simple=simple, words=words))
    args = argparse.Namespace (keyboard='ibmpc105', layout=c['name'])
    if total:
        with stdio (data) as o: S.keyHeatmap (args)
        eq (yaml.safe_load (o.out.decode ()), dict (total=total, buttons=btn), 'key heat map')
    with scratch () as d:
        meta = dict (source='x', stats={'old': 1}, n=[1, 2])
        open (d + '/m', 'w').write (yaml.safe_dump (meta))
        args.metadata = open (d + '/m')
        with stdio (data) as o: S.corpusStats (args)
        args.metadata.close ()
    docs = [x for x in yaml.safe_load_all (o.out.decode () + o.out.decode ()) if x is not None]
    want = dict (meta, stats=dict (characters=sum (cc.values ()), words=sum (c['words'].values ())))
    eq (docs, [want, want], 'corpus statistics')
    count = lambda t: sum (cc.get ((m, b), 0) for m, b in typ.get (t, []))
    alef = count (H[0])
    if not total or not sum (cc.values ()) or not alef: return
    with stdio (data) as o: S.layoutstats (args)
    r = pickle.loads (o.out)
    hands, fingers = {}, {}
    for b, n in btn.items ():
        h, f = FINGERMAP[b]
        inc (hands, h, n); inc (fingers, (h, f), n)
    nz = lambda d: dict ((k, v) for k, v in d.items () if v)
    eq (nz (dict ((int (k), v) for k, v in r['hands'].items ())), hands, 'hands')
    eq (nz (dict (((int (k[0]), int (k[1])), v) for k, v in r['fingers'].items ())), fingers, 'fingers')
    eq (r['buttonPresses'], total, 'button presses'); eq (r['layout'], c['name'], 'layout')
    close = lambda a, b: abs (a-b) < 1e-9
    expect (close (r['asymmetry'], (hands.get (L, 0) - hands.get (R, 0))/total), 'asymmetry', r['asymmetry'])
    expect (close (r['hamzaImpact'], sum (map (count, H[1:]))/sum (cc.values ())), 'hamzaImpact', r['hamzaImpact'])
    x = count (H[1]) + count (H[2])
    expect (close (r['hamzaOnAlef'], x/(x+alef)), 'hamzaOnAlef', r['hamzaOnAlef'])
