from common import *
import yaml, argparse
import xml.etree.ElementTree as ET
RULE = 'random and shipped layouts exported to AnySoftKeyboard and Klavaro and parsed back; non-trivial: at least three layers'
def nontrivial (c): return 'name' in c or len (c['spec']) > 2
def fixed ():
    for n in LAYOUTS:
        for f in ('ask', 'klavaro'): yield dict (name=n, fmt=f)
    yield dict (spec=[[[[]], {'Dl1': 'a', 'Bl1': 'ا\u0654'}], [[['El_shift']], {'Dl1': 'b', 'Bl2': 'و\u0654'}], [[['Dl2']], {'Dl1': 'cd'}], [[['Dl3']], {'Dl1': 'e'}]], fmt='ask')
    yield dict (spec=[[[[]], {'Dl1': 'a', 'Bl1': 'ا\u0654'}], [[['El_shift']], {'Dl1': 'b', 'Bl2': 'و\u0654'}]], fmt='klavaro')
    spec = [[[[]], {'Dl1': 'a', 'Bl1': 'b', 'Cl2': 'x', 'Cl3': '-'}], [[['El_shift']], {'Dl1': 'b', 'Bl2': 'c', 'Cl3': '*', 'Er1': 'y'}]]
    for f in ('ask', 'klavaro'):
        yield dict (spec=spec, fmt=f, perm=[4, 0, 2, 3, 1], plain=None)
        yield dict (spec=spec, fmt=f, perm=[2, 0, 4, 1, 3], plain=0)
        yield dict (spec=spec, fmt=f, perm=[0, 1, 4, 2, 3], plain=2)
def gen (rng, i):
    while True:
        spec = genLayout (rng, 'ab٠او\u0654\u0655<&', 3, nlayers=rng.randint (2, 4), size=60)
        if len (spec) >= 2 and all (m for m, l in spec): break
    c = dict (spec=spec, fmt=('ask', 'klavaro')[i % 2])
    if rng.random () < .3: c.update (perm=rng.sample (range (5), 5), plain=rng.choice ([None, 0, 1, 2, 3]))
    return c
A = '{http://schemas.android.com/apk/res/android}'
K = '{http://schemas.android.com/apk/res-auto}'
BOTTOM = [
 {K+'isFunctional': 'true', A+'keyWidth': '25%p', A+'codes': '10', A+'keyEdgeFlags': 'left'},
 {K+'isFunctional': 'true', A+'keyWidth': '50%p', A+'codes': '32'},
 {K+'isFunctional': 'true', A+'keyWidth': '25%p', A+'codes': '-5', A+'keyEdgeFlags': 'right', A+'isRepeatable': 'true'}]
def check (c):
    from lulua import render
    if 'name' in c:
        lay = yaml.safe_load (open (f'{REPO}/lulua/data/layouts/{c["name"]}.yaml', encoding='utf-8'))
        spec = [[l['modifier'], l['layer']] for l in lay['layout']]
    else:
        spec = c['spec']
    with scratch () as d:
        if 'name' in c:
            lay = c['name']
        else:
            lay = d + '/in.yaml'
            with open (lay, 'w') as fd:
                yaml.safe_dump (dict (name='gen', layout=[dict (modifier=m, layer=l) for m, l in spec]), fd)
        kbd = 'ibmpc105'
        rownames, letters = ROWNAMES, set (b.name for b in letterButtons ())
        if c.get ('perm'):
            # the same keys in another order of rows, one row without letter keys
            data = yaml.safe_load (open (f'{REPO}/lulua/data/keyboards/ibmpc105.yaml', encoding='utf-8'))
            data['rows'] = [data['rows'][i] for i in c['perm']]
            rownames = [[' '.join (b['name'] for b in h) for h in r] for r in data['rows']]
            if c['plain'] is not None:
                for h in data['rows'][c['plain']]:
                    for b in h:
                        if b.get ('kind') == 'letter':
                            b['kind'] = 'standard'
                            letters.discard (b['name'])
            kbd = d + '/kbd.yaml'
            with open (kbd, 'w') as fd: yaml.safe_dump (data, fd)
        (render.renderAsk if c['fmt'] == 'ask' else render.renderKlavaro) (argparse.Namespace (keyboard=kbd, layout=lay, output=d + '/o'))
        expect (os.path.exists (d + '/o'), 'nothing is written')
        out = open (d + '/o', encoding='utf-8', newline='').read ()
    mods = set (m[0] for ms, l in spec for m in ms if len (m) == 1)
    nfc = lambda t: unicodedata.normalize ('NFC', t) if t is not None else ''
    if c['fmt'] == 'ask':
        root = ET.fromstring (out)
        rows = list (root)
        want = []
        for i, (l, r) in enumerate (rownames[:-1]):
            row = [n for n in (l + ' ' + r).split () if n in letters and n not in mods]
            if row: want.append ((i, row))
        eq (len (rows), len (want) + 1, 'rows')
        for e, (i, row) in zip (rows, want):
            eq (e.get (A+'keyWidth'), f'{100/len (row):.2f}%p', 'key width')
            eq (e.get (A+'rowEdgeFlags'), 'top' if i == 0 else None, 'row edge')
            eq (e.get (A+'keyHeight'), '@integer/key_short_height' if i == 0 else None, 'key height')
            keys = list (e)
            eq (len (keys), len (row), 'keys in row')
            for k, n in zip (keys, row):
                t = [nfc (l.get (n)) for m, l in spec]
                eq (k.attrib, {A+'codes': ','.join (str (ord (x)) for x in t[0]), A+'keyLabel': t[0], A+'popupCharacters': ''.join (t[1:]), K+'hintLabel': ''.join (t[1:3])}, f'key {n}')
        eq (rows[-1].attrib, {A+'rowEdgeFlags': 'bottom', A+'keyHeight': '@integer/key_normal_height'}, 'bottom row')
        eq ([k.attrib for k in rows[-1]], BOTTOM, 'bottom row keys')
    else:
        want = ''
        for i in (0, 1):
            lines = []
            for l, r in rownames:
                row = [n for n in (l + ' ' + r).split () if n in letters]
                if row: lines.append (''.join (nfc (spec[i][1].get (n)) or ' ' for n in row))
            want += '\n'.join (lines) + '\n'
        eq (out, want, 'klavaro')
