from common import *
import yaml, argparse, re
RULE = 'random and shipped layouts exported to xmodmap, Keyman and keylayout files that are parsed back; non-trivial: at least two layers'
def nontrivial (c): return 'name' in c or len (c['spec']) > 1
def caps ():
    return dict ((b.name, b.scancode) for b in kb ().keys ())
CHARS = 'ab٠ا\u0651\u202f،\U0001F600&<>"\'] '
def fixed ():
    for n in LAYOUTS:
        for f in ('xmodmap', 'keyman', 'keylayout'):
            yield dict (name=n, fmt=f)
    yield dict (spec=[[[[]], {'Cl_tab': '\t', 'CD_ret': '\n', 'Fl_space': ' ', 'Fr_space': ' ', 'Br_bs': '\b', 'Dl1': 'a'}]], fmt='xmodmap')
    yield dict (spec=[[[[]], {'Dl1': 'a'}], [[['El_shift'], ['Er_shift']], {'Dl1': 'b'}], [[['Dl_caps'], ['Dr1']], {'Dl1': 'c'}], [[['El1'], ['Fr_altgr']], {'Dl1': 'd'}]] + [[[], {'Dl1': x}] for x in 'efg'], fmt='xmodmap')
    yield dict (spec=[[[[]], {'Dl1': 'ab'}], [[['El_shift', 'Fl_ctrl'], ['Er_shift']], {'Dl1': 'bcd', 'CD_ret': '\n'}]], fmt='keyman')
    yield dict (spec=[[[[]], {'Dl1': 'ab<&"\t'}], [[['El_shift', 'Fl_ctrl'], ['Er_shift']], {'Dl1': 'bcd', 'CD_ret': '\n'}]], fmt='keylayout')
def gen (rng, i):
    fmt = ('xmodmap', 'keyman', 'keylayout')[i % 3]
    used = {}
    spec = []
    modpool = ['El_shift', 'Er_shift', 'Fl_ctrl', 'Fr_ctrl', 'Fr_altgr', 'Dl_caps', 'Fl_alt', 'Dr1', 'El1', 'Br3']
    rng.shuffle (modpool)
    names = [n for n in FINGERMAP if n != 'Fl_fn']
    sc = caps ()
    if fmt == 'keylayout': names = [n for n in names if 'macos' in sc[n]]
    for k in range (rng.randint (1, 4)):
        mods = [[]] if k == 0 else [[modpool.pop ()] for _ in range (rng.randint (1, 2))]
        if fmt != 'xmodmap' and k and rng.random () < .3: mods[0].append (modpool[0])
        lay = {}
        for b in rng.sample (names, rng.randint (0, len (names))):
            n = 1 if fmt == 'xmodmap' else rng.randint (1, 3)
            lay[b] = ''.join (rng.choice (CHARS) for _ in range (n))
            if fmt == 'xmodmap' and rng.random () < .1: lay[b] = rng.choice ('\t\n \b')
        for s in ('Fl_space', 'Fr_space'): lay.pop (s, None)
        if rng.random () < .8: lay['Fl_space'] = lay['Fr_space'] = rng.choice (CHARS)
        spec.append ([mods, lay])
    if fmt == 'xmodmap' and len (spec) == 4 and rng.random () < .4:
        for _ in range (rng.randint (1, 3)): spec.append ([[], {rng.choice (names[:40]): rng.choice (CHARS)}])
    return dict (spec=spec, fmt=fmt)
def run (c):
    from lulua import render
    with scratch () as d:
        if 'name' in c:
            lay = c['name']
        else:
            lay = d + '/in.yaml'
            with open (lay, 'w') as fd:
                yaml.safe_dump (dict (name='gen', layout=[dict (modifier=m, layer=l) for m, l in c['spec']]), fd)
        out = d + '/out'
        f = dict (xmodmap=render.renderXmodmap, keyman=render.renderKeyman, keylayout=render.renderKeylayout)[c['fmt']]
        f (argparse.Namespace (keyboard='ibmpc105', layout=lay, output=out))
        expect (os.path.exists (out), 'nothing is written')
        with open (out, encoding='utf-8', newline='') as fd:
            return fd.read ()
LAYERMOD = [[], ['Shift_L', 'Shift_Lock'], ['ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_First_Group', 'NoSymbol'],
  ['ISO_Level3_Shift', 'ISO_Level3_Shift', 'ISO_Group_Shift', 'ISO_Group_Shift', 'ISO_Level3_Lock', 'NoSymbol']]
def unxml (s):
    return re.sub (r'&(#\d+|#x[0-9a-fA-F]+|amp|lt|gt|quot|apos);', lambda m: {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}.get (m[1]) or chr (int (m[1][2:], 16) if m[1][1] == 'x' else int (m[1][1:])), s)
def check (c):
    if 'name' in c:
        lay = yaml.safe_load (open (f'{REPO}/lulua/data/layouts/{c["name"]}.yaml', encoding='utf-8'))
        spec = [[l['modifier'], l['layer']] for l in lay['layout']]
    else:
        spec = c['spec']
    sc = caps ()
    used = set (b for m, l in spec for b in l) | set (b for m, l in spec for x in m for b in x)
    if not used <= set (sc): return
    fmt = c['fmt']
    if fmt == 'xmodmap':
        if len (spec) > 8 or any (len (x) > 1 for m, l in spec for x in m) or any (len (t) != 1 for m, l in spec for t in l.values ()) or any (i > 3 and any (m) for i, (m, l) in enumerate (spec)): return
        if any (l.get ('Fl_space') != l.get ('Fr_space') for m, l in spec): return
        out = run (c)
        got = {}
        for line in out.split ('\n'):
            m = re.match (r'^\s*keycode\s+(\d+)\s*=\s*(.*)$', line)
            if m:
                expect (int (m[1]) not in got, 'keycode assigned twice', m[1])
                got[int (m[1])] = m[2].split ()
        want = {}
        modOf = {}
        for i, (mods, l) in enumerate (spec):
            for m in mods:
                if m: modOf[m[0]] = i
        for n in sc:
            if n in modOf:
                want[sc[n]['xorg']] = LAYERMOD[modOf[n]]
                continue
            row = []
            for i in (0, 1, 2, 4, 3, None, 5, 6):
                t = spec[i][1].get (n) if i is not None and i < len (spec) else None
                row.append ('NoSymbol' if not t else {'\t': 'Tab', '\n': 'Return', ' ': 'space', '\b': 'BackSpace'}.get (t, 'U%04X' % ord (t)))
            want[sc[n]['xorg']] = row
        trim = lambda d: dict ((k, v) for k, v in d.items ())
        eq (trim (got), want, 'xmodmap')
        for need in ('clear Lock', 'clear Mod2', 'clear Mod3', 'clear Mod5', 'add Mod3 = ISO_First_Group', 'add Mod5 = ISO_Level3_Shift'):
            expect (need in out.split ('\n'), 'missing line', need)
    elif fmt == 'keyman':
        out = run (c)
        got = set ()
        for line in out.split ('\n'):
            m = re.match (r'^\+ \[(.*?)\] > (.*)$', line)
            if m: got.add ((frozenset (m[1].split ()), ''.join (chr (int (x[2:], 16)) for x in m[2].split ())))
            elif line.startswith ('+'): raise Fail ('unexpected rule ' + line)
        want = set ()
        for mods, l in spec:
            for m in mods:
                for b, t in l.items (): want.add ((frozenset ([sc[x]['keyman'] for x in m] + [sc[b]['keyman']]), t))
        eq (got, want, 'keyman rules')
        for m in re.findall (r'U\+([0-9A-F]*)', out): expect (len (m) >= 4, 'short code point', m)
    else:
        if any ('macos' not in sc[b] for m, l in spec for b in l): return
        out = run (c)
        got = {}
        for m in re.finditer (r'<keyMap index="(\d+)"\s*(/>|>(.*?)</keyMap>)', out, re.S):
            got[int (m[1])] = set ((int (k[0]), unxml (k[1])) for k in re.findall (r'<key code="(\d+)" output="(.*?)"', m[3] or '', re.S))
        want = dict ((i, set ((int (sc[b]['macos']), t) for b, t in l.items ())) for i, (m, l) in enumerate (spec))
        eq (got, want, 'keylayout')
        mm = re.findall (r'<keyMapSelect mapIndex="(\d+)"><modifier keys="(.*?)"', out)
        eq (mm, [('0', ''), ('1', 'anyShift caps?'), ('2', 'caps'), ('3', 'anyOption')], 'modifier map')
