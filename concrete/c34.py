from common import *
import yaml, argparse
RULE = 'generated Keyboard Layout Creator files (random keys, columns, comments, sections) imported through the command function and loaded for the standard keyboard; non-trivial: at least two columns'
def nontrivial (c): return any (len (v) > 1 for k, v in c['keys'])
# scancode (set 1) and virtual key of every key of the file format
KEYS = {'OEM_3': 0x29, **{c: 2 + i for i, c in enumerate ('1234567890')}, 'OEM_MINUS': 0xc, 'OEM_PLUS': 0xd, **{c: 0x10 + i for i, c in enumerate ('QWERTYUIOP')}, 'OEM_4': 0x1a, 'OEM_6': 0x1b,
  **{c: 0x1e + i for i, c in enumerate ('ASDFGHJKL')}, 'OEM_1': 0x27, 'OEM_7': 0x28, 'OEM_5': 0x2b, 'OEM_102': 0x56, **{c: 0x2c + i for i, c in enumerate ('ZXCVBNM')}, 'OEM_COMMA': 0x33, 'OEM_PERIOD': 0x34, 'OEM_2': 0x35, 'SPACE': 0x39}
MODS = [[[]], [['El_shift'], ['Er_shift']], [['Fl_ctrl'], ['Fr_ctrl']], [['El_shift', 'Fl_ctrl'], ['Er_shift', 'Fr_ctrl']], [['Fr_altgr']], [['El_shift', 'Fr_altgr']]]
ALL = sorted (KEYS)
def fixed ():
    yield dict (keys=[[k, ['%04x' % (0x61 + i), '%04x' % (0x621 + i)]] for i, k in enumerate (ALL)], lig=True, dead=False, names=True, comments=True)
    yield dict (keys=[[k, ['%04x' % (0x4e00 + 6*i + j) for j in range (6)]] for i, k in enumerate (ALL)], lig=False, dead=False, names=True, comments=True)
    yield dict (keys=[['OEM_3', ['0060', '007e', '-1', '-1', '00e9', '0622']], ['1', ['0031', '%%', '-1', '%%', 'fef5']], ['SPACE', ['0020']], ['DECIMAL', ['002e', '002e']]], lig=True, dead=True, names=True, comments=False)
    yield dict (keys=[], lig=False, dead=True, names=True, comments=True)
def gen (rng, i):
    cps = [0x20, 0x30, 0x61, 0x627, 0x622, 0x654, 0xe9, 0xfefb, 0x10ffff & 0xfffd, 0x7f, 0x41, 0x5a, 0x200c, 0x3b, 0x2f, 0x1e9b]
    def code ():
        r = rng.random ()
        return '-1' if r < .25 else '%%' if r < .3 else rng.choice (('%04x', '%04X')) % rng.choice (cps)
    n = rng.randint (1, 6)
    ks = rng.sample (ALL, rng.randint (0, len (ALL)))
    if rng.random () < .3: ks.append ('DECIMAL')
    return dict (keys=[[k, [code () for _ in range (rng.randint (0, n))]] for k in ks], lig=rng.random () < .5, dead=rng.random () < .3, names=rng.random () < .8, comments=rng.random () < .7)
def klc (c):
    com = lambda t: '\t\t// ' + t if c['comments'] else ''
    o = ['KBD\tGen\t"Generated layout"', '', 'COPYRIGHT\t"(c) 2019 Nobody"', '', 'COMPANY\t"None"', '', 'LOCALENAME\t"ar-SA"', '', 'LOCALEID\t"00000401"', '', 'VERSION\t1.0', '', 'SHIFTSTATE', '']
    o += [f'{s}\t//Column {i+4} : {n}' for i, (s, n) in enumerate (((0, ''), (1, 'Shft'), (2, 'Ctrl'), (3, 'Shft  Ctrl'), (6, 'Ctrl Alt'), (7, 'Shft Ctrl Alt')))]
    o += ['', "LAYOUT\t\t;an extra '@' at the end is a dead key", '', '//SC\tVK_\t\tCap\t0\t1\t2', '//--\t----\t\t----\t----\t----\t----', '']
    for k, cs in c['keys']: o.append ('\t'.join (['%02x' % KEYS.get (k, 0x53), k + ('\t' if len (k) < 8 else ''), '0', *cs]) + com ('SOMETHING, <none>'))
    o += ['', '']
    if c['lig']: o += ['LIGATURE', '', '//VK_\tMod#\tChar0\tChar1', '//----\t\t----\t----\t----', '', 'B\t\t0\t0644\t0627' + com ('LAM + ALEF'), 'G\t\t1\t0644\t0623', '', '']
    if c['dead']: o += ['DEADKEY\t0060', '', '0061\t00e0' + com ('a -> à'), '0065\t00e8', '0020\t0060', '', '']
    if c['names']: o += ['KEYNAME', '', '01\tEsc', '0e\tBackspace', '37\t"Num *"', '45\t"Num Lock"', '54\t"Sys Req"', '4f\t"Num 1 End"', '', 'KEYNAME_EXT', '', '1c\t"Num Enter"', '35\t"Num /"', '', 'DESCRIPTIONS', '', '0409\tGenerated layout of mine', '', 'LANGUAGENAMES', '', '0409\tArabic (Saudi Arabia)', '']
    return '\r\n'.join (o + ['ENDKBD', ''])
def check (c):
    from lulua.layout import importKlc, GenericLayout
    with scratch () as d:
        with open (d + '/in.klc', 'w', encoding='utf16', newline='') as fd: fd.write (klc (c))
        with stdio (b'', ['lulua-import']) as o:
            importKlc (argparse.Namespace (input=d + '/in.klc'))
    data = yaml.safe_load (o.out.decode ('utf-8'))
    byCode = dict ((b.scancode['windows'][0], b) for b in kb ().keys () if b.name != 'Fr_space')
    want = [{} for _ in range (6)]
    for k, cs in c['keys']:
        if k not in KEYS: continue
        for i, x in enumerate (cs):
            if x not in ('-1', '%%'): want[i][byCode[KEYS[k]].name] = unicodedata.normalize ('NFD', chr (int (x, 16)))
    eq (len (data['layout']), 6, 'layers')
    for i, l in enumerate (data['layout']):
        eq (l['layer'], want[i], f'texts of layer {i}')
        eq (sorted (sorted (m) for m in l['modifier']), sorted (sorted (m) for m in MODS[i]), f'modifiers of layer {i}')
    # the result can be used
    texts = [t for l in want for t in l.values ()]
    data['name'] = 'imported'
    lay = GenericLayout.deserialize (data).specialize (kb ())
    for i, l in enumerate (want):
        eq (dict ((b.name, t) for b, t in lay.layers[i].layout.items ()), l, f'loaded layer {i}')
