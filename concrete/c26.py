from common import *
import xml.etree.ElementTree as ET
RULE = 'random keyboards (rows, halves, widths) and render settings, drawn and parsed back; non-trivial: at least two rows'
def nontrivial (c): return len (c['rows']) > 1
def fixed ():
    yield dict (rows=[[[1], [1]], [[], []], [[2, .5], [1.25]]], s=[20, 10, 200], mark=True)
    yield dict (rows=[], s=[20, 10, 200], mark=False)
    yield dict (rows=[[[1, 1], [1]], [[], [1]], [[1], []]], s=[0, 0, 1], mark=False)
    yield dict (svg=True, rows=[], s=[20, 10, 200], mark=False)
    yield dict (std=True, rows=[], s=[20, 10, 200], mark=False)
def gen (rng, i):
    w = [1, 1, 1.25, 1.5, 2, .5, 6, .25]
    return dict (rows=[[[rng.choice (w) for _ in range (rng.randint (0, 7))] for _ in range (2)] for _ in range (rng.randint (0, 6))],
      s=[rng.choice ([0, 1, 20, 7.5]), rng.choice ([0, 10, 33.25]), rng.choice ([1, 200, 13])], mark=rng.random () < .5, std=i % 25 == 0)
def svg (heat):
    """ the drawing the command writes """
    import argparse, io
    from lulua.render import renderSvg
    here = os.getcwd ()
    with scratch () as d:
        f = d + '/3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2'
        os.makedirs (f)
        for n in ('Thin', 'Regular'): open (f'{f}/IBMPlexSansArabic-{n}.woff2', 'w').close ()
        os.chdir (d)
        try: renderSvg (argparse.Namespace (keyboard='ibmpc105', layout='ar-lulua', heatmap=heat, output=d + '/o.svg', style=io.BytesIO (b'text { fill: black; }')))
        except FileNotFoundError: return None
        finally: os.chdir (here)
        expect (os.path.exists (d + '/o.svg'), 'nothing is written')
        return ET.parse (d + '/o.svg').getroot ()
def check (c):
    if c.get ('svg'):
        for heat in (None, dict (buttons={b.name: i for i, b in enumerate (kb ().keys ())})):
            root = svg (heat)
            if root is None: return
            cap = [x for x in root.iter () if x.get ('class') == 'cap']
            eq (len (cap), 1, 'groups of caps')
            rects = [x for x in cap[0] if x.tag.endswith ('rect')]
            eq (len (rects), len (list (kb ().keys ())), 'number of keys')
            for x in rects:
                a = [float (x.get (n)) for n in ('x', 'y', 'width', 'height')]
                expect (a[0]+a[2] <= float (root.get ('width'))+1e-6 and a[1]+a[3] <= float (root.get ('height'))+1e-6, 'key outside drawing', a)
        return
    from lulua.keyboard import Button, LetterButton, PhysicalKeyboard
    from lulua.layout import KeyboardLayout, Layer
    from lulua.render import Renderer, RendererSettings
    from lulua.writer import Writer
    m, g, w = c['s']
    st = RendererSettings (buttonMargin=m, middleGap=g, buttonWidth=w, rounded=1, shadowOffset=5, markerStroke=7)
    if c.get ('std'):
        k = kb ()
        lay = layout ('ar-lulua')
        wr = Writer (lay)
    else:
        n = [0]
        def mk (x):
            n[0] += 1
            return (Button if n[0] % 2 else LetterButton) (name=f'rb{n[0]}', width=x, isMarked=c['mark'] and n[0] % 3 == 0)
        k = PhysicalKeyboard ('x', 'x', [[[mk (x) for x in h] for h in r] for r in c['rows']])
        lay = KeyboardLayout ('x', [Layer (modifier=[frozenset ()], layout={})], k)
        wr = None
    grp, (W, H) = Renderer (k, layout=lay, writer=wr, settings=st).render ()
    root = ET.fromstring (grp.tostring ())
    cap = [x for x in root if x.get ('class') == 'cap']
    eq (len (cap), 1, 'groups of caps')
    rects = [tuple (float (x.get (a)) for a in ('x', 'y', 'width', 'height')) for x in cap[0] if x.tag.endswith ('rect')]
    want = []
    y = 0
    for l, r in k.rows:
        x = 0
        for half, gap in ((l, g), (r, 0)):
            for b in half:
                want.append ((x, y, b.width*w, w))
                x += b.width*w + m
            x += gap
        y += w + m
    eq (len (rects), len (want), 'number of keys')
    close = lambda a, b: abs (a-b) <= 1e-6*max (1, abs (a), abs (b))
    rects.sort (key=lambda r: (round (r[1], 3), round (r[0], 3)))
    for a, b in zip (rects, want):
        expect (all (close (p, q) for p, q in zip (a, b)), 'key at', a, 'should be at', b)
    for i, a in enumerate (rects):
        expect (a[0]+a[2] <= W+1e-6 and a[1]+a[3] <= H+1e-6 and a[0] >= 0 and a[1] >= 0, 'key outside drawing', a, (W, H))
        for b in rects[:i]:
            expect (a[0] >= b[0]+b[2]-1e-6 or b[0] >= a[0]+a[2]-1e-6 or a[1] >= b[1]+b[3]-1e-6 or b[1] >= a[1]+a[3]-1e-6, 'keys overlap', a, b)
    # the label of each key lies on it
    if c.get ('std'):
        lab = [x for x in root if x.get ('class') == 'label'][0]
        eq (len (list (lab)), len (want), 'labels')
