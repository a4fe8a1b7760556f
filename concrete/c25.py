from common import *
import subprocess, argparse, os
RULE = 'random scancode and character maps: the generated driver is compiled with gcc and its tables are read back through its entry point; non-trivial: at least two characters or scancodes'
def nontrivial (c): return True
CASE_SECONDS = 60
HARNESS = r'''
#include "drv.c"
#include <stdio.h>
#include <stddef.h>
int main () {
  PKBDTABLES t = KbdLayerDescriptor ();
  printf ("A");
  for (int i = 0; i < t->bMaxVSCtoVK; i++) printf (" %u", t->pusVSCtoVK[i]);
  printf ("\nE0");
  for (PVSC_VK p = t->pVSCtoVK_E0; p->Vk && p < t->pVSCtoVK_E0 + 1000; p++) printf (" %u:%u", p->Vsc, p->Vk);
  printf ("\nE1");
  for (PVSC_VK p = t->pVSCtoVK_E1; p->Vk && p < t->pVSCtoVK_E1 + 1000; p++) printf (" %u:%u", p->Vsc, p->Vk);
  printf ("\nB");
  for (PVK_TO_BIT p = t->pCharModifiers->pVkToBit; p->Vk; p++) printf (" %u:%u", p->Vk, p->ModBits);
  printf ("\nM %u", t->pCharModifiers->wMaxModBits);
  for (int i = 0; i <= t->pCharModifiers->wMaxModBits; i++) printf (" %u", t->pCharModifiers->ModNumber[i]);
  for (PVK_TO_WCHAR_TABLE w = t->pVkToWcharTable; w->pVkToWchars; w++) {
    printf ("\nW %u", w->nModifications);
    for (unsigned char *p = (unsigned char *) w->pVkToWchars; ((PVK_TO_WCHARS1) p)->VirtualKey; p += w->cbSize) {
      PVK_TO_WCHARS1 e = (PVK_TO_WCHARS1) p;
      printf (" %u:%u", e->VirtualKey, e->Attributes);
      wchar_t *c = (wchar_t *) (p + offsetof (VK_TO_WCHARS1, wch));
      for (int i = 0; i < w->nModifications; i++) printf (":%lu", (unsigned long) c[i]);
    }
  }
  printf ("\n");
  return 0;
}
'''
FLAGS = dict (EXT=0x100, MULTI=0x200, SPECIAL=0x400, NUMPAD=0x800)
def fixed ():
    yield dict (shipped=True)
    yield dict (sc=[], wc=[])
    yield dict (sc=[], wc=[['A', 0, ['a', 'ab']]])
    yield dict (sc=[], wc=[['A', 0, ['a', None, '\U0001f600']]])
    yield dict (sc=[[[0xe0, 0x7f], ['UP', 'EXT']], [[0xe0, 1], ['UP']], [[0xe1, 5], ['PAUSE']], [[0x7f], ['A']], [[0], ['B']]], wc=[['A', 0, ['a', None, '*', '/']], ['B', 1, ['\\', "'", '"', '?']], ['C', 0, ['x']]])
    for bad in ('', 'ab', '\r\n', 'abc', 'ا\u0654'):
        yield dict (sc=[], wc=[['A', 0, ['a']], ['C', 0, ['b', bad]]])
def gen (rng, i):
    from lulua.winkbd import VirtualKey, VirtualKeyFlag
    vks = [n for n, m in VirtualKey.__members__.items () if 0 < m < 0xff]
    fl = list (VirtualKeyFlag.__members__)
    sc = {}
    for _ in range (rng.randint (0, 40)):
        pre = rng.choice ([(), (), (0xe0,), (0xe1,)])
        sc[pre + (rng.randint (1, 0x7f),)] = [rng.choice (vks)] + rng.sample (fl, rng.choice ([0, 0, 1, 2]) if fl else 0)
    items = list (sc.items ())
    rng.shuffle (items)
    chars = 'aاb\\\'"*/?% \n\r\t\u202f\uffff\u0651x'
    wc = []
    for vk in rng.sample (vks, rng.randint (0, 15)):
        wc.append ([vk, rng.choice ([0, 0, 1, 2]), [None if rng.random () < .3 else rng.choice (chars) for _ in range (rng.randint (1, 8))]])
    if rng.random () < .15 and wc:
        wc[rng.randrange (len (wc))][2][0] = rng.choice (['', 'ab', 'abc', '\U0001f600', '\U0001ee00'])
    return dict (sc=[[list (k), v] for k, v in items], wc=wc)
# windows key codes used by the shipped driver
GOLD = dict (SHIFT=0x10, CONTROL=0x11, MENU=0x12, OEM_8=0xDF, OEM_102=0xE2)
MODS = [['SHIFT', 1], ['CONTROL', 2], ['MENU', 4], ['OEM_8', 8], ['OEM_102', 16]]
LAYERS = [set (), {'SHIFT'}, {'OEM_102'}, {'OEM_8'}, {'SHIFT', 'OEM_102'}, {'OEM_8', 'OEM_102'}, {'CONTROL'}, {'SHIFT', 'CONTROL'}, {'SHIFT', 'OEM_8'}]
def tables (src):
    with scratch () as d:
        open (d + '/drv.c', 'w', encoding='utf-8').write (src)
        open (d + '/h.c', 'w').write (HARNESS)
        # tables without terminator are found by the address sanitizer, where it works
        r = subprocess.run (['gcc', '-w', '-O0', '-fsanitize=address', '-o', d + '/h', d + '/h.c'], capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run ([d + '/h'], capture_output=True, text=True, timeout=20, env=dict (os.environ, ASAN_OPTIONS='detect_leaks=0'))
            expect (r.returncode == 0 or '-buffer-overflow' not in r.stderr, 'a table of the driver is not terminated', r.stderr[-600:])
        r = subprocess.run (['gcc', '-w', '-O0', '-o', d + '/h', d + '/h.c'], capture_output=True, text=True)
        expect (r.returncode == 0, 'driver source does not compile:', r.stderr[-600:])
        r = subprocess.run ([d + '/h'], capture_output=True, text=True, timeout=20)
        expect (r.returncode == 0, 'reading driver tables failed', r.returncode)
    t = dict (W=[])
    for line in r.stdout.strip ().split ('\n'):
        k, *v = line.split ()
        if k == 'W': t['W'].append ((int (v[0]), [tuple (map (int, x.split (':'))) for x in v[1:]]))
        else: t[k] = [tuple (map (int, x.split (':'))) if ':' in x else int (x) for x in v]
    return t
def verify (src, sc, wc):
    """ sc: {tuple: [ints]}, wc: [(vk int, flags, chars)] """
    t = tables (src)
    a = []
    for i in range (128):
        v = 0
        for x in sc.get ((i,), [0xff]): v |= x
        a.append (v)
    eq (t['A'], a, 'scancode table')
    for e in (0xe0, 0xe1):
        want = []
        for k in sorted (sc):
            if len (k) == 2 and k[0] == e:
                v = 0
                for x in sc[k]: v |= x
                want.append ((k[1], v))
        eq (t['E0' if e == 0xe0 else 'E1'], want, f'table of prefix {e:x}')
    eq (t['B'], [(GOLD[a], b) for a, b in MODS], 'modifier bits')
    eq (t['M'][0], 24, 'largest shift state')
    for i, layer in enumerate (t['M'][1:]):
        keys = set (a for a, b in MODS if i & b)
        eq (layer, LAYERS.index (keys) if keys in LAYERS else 0x0f, f'layer of shift state {i}')
    num = t['W'][-1]
    eq (num, (1, [(0x60 + i, 0, ord ('0') + i) for i in range (10)]), 'number pad table')
    got = sorted ((vk, fl, tuple (ch)) for n, es in t['W'][:-1] for vk, fl, *ch in es)
    want = sorted ((vk, fl, tuple (0xf000 if x is None else ord (x) for x in ch)) for vk, fl, ch in wc)
    eq (got, want, 'characters')
    lens = [n for n, es in t['W'][:-1]]
    expect (len (lens) == len (set (lens)), 'tables of the same size')
def check (c):
    from lulua.winkbd import VirtualKey, VirtualKeyFlag, makeDriverSources, qwertyScancodeToVk
    for k, v in GOLD.items (): eq (int (VirtualKey[k]), v, k)
    if 'shipped' in c:
        from lulua.render import renderWinKbd
        with scratch () as d:
            renderWinKbd (argparse.Namespace (keyboard='ibmpc105', layout='ar-lulua', output=d + '/o.c'))
            expect (os.path.exists (d + '/o.c'), 'nothing is written')
            src = open (d + '/o.c', encoding='utf-8').read ()
        sc = dict ((tuple (k), [int (x) for x in v]) for k, v in qwertyScancodeToVk.items ())
        for k, v in {(0x2b,): 'OEM_102', (0x3a,): 'OEM_102', (0x56,): 'OEM_8', (0xe0, 0x38): 'OEM_8'}.items (): sc[k] = [GOLD[v]]
        vkOf = dict ((k, [int (x) for x in v if isinstance (x, VirtualKey)][0]) for k, v in qwertyScancodeToVk.items ())
        for k in ((0x2b,), (0x3a,), (0x56,), (0xe0, 0x38)): vkOf[k] = sc[k][0]
        lay = layout ('ar-lulua')
        spec = specOf (lay)
        wc = {}
        for b in kb ().keys ():
            texts = [l.get (b.name) for m, l in spec]
            if any (x is not None for x in texts):
                wc[tuple (b.scancode['windows'])] = (vkOf[tuple (b.scancode['windows'])], 0, ['\r' if x == '\n' else x for x in texts])
        verify (src, sc, list (wc.values ()))
        return
    val = lambda n: VirtualKey[n] if n in VirtualKey.__members__ else VirtualKeyFlag[n]
    sc = dict ((tuple (k), tuple (val (x) for x in v)) for k, v in c['sc'])
    wc = [(VirtualKey[vk], fl, ch) for vk, fl, ch in c['wc']]
    # characters of the driver have 16 bits
    bad = any (x is not None and (len (x) != 1 or ord (x) > 0xffff) for vk, fl, ch in c['wc'] for x in ch)
    try:
        src = makeDriverSources (sc, wc)
    except Exception:
        if bad: return
        raise
    expect (not bad, 'a text that is not a single character was accepted')
    verify (src, dict ((k, [int (x) for x in v]) for k, v in sc.items ()), [(int (vk), fl, ch) for vk, fl, ch in wc])
