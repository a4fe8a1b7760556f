from common import *
RULE = 'random element trees as token streams and as HTML documents, with nested matching, script, style, void and other elements; non-trivial: a matching element with children'
NAMES = ['p', 'div', 'b', 'script', 'style', 'span', 'svg']
def nontrivial (c): return len (json.dumps (c)) > 60
def fixed ():
    T = ['t', 'x']
    yield dict (tree=[['e', 'div', True, [T, ['e', 'div', True, [T]], T]], T])
    yield dict (tree=[T, ['e', 'div', True, [['e', 'script', False, [T]], T, ['e', 'style', False, [['e', 'b', False, [T]], T]], T]], T])
    yield dict (tree=[['e', 'script', False, [['e', 'div', True, [T]], T]], T, ['e', 'p', True, [T]]])
    yield dict (tree=[['e', 'div', False, [['e', 'p', True, [T, ['v', 'br'], ['s', '  \n'], ['c', 'comment']]], T, ['e', 'p', True, []], T]]])
    yield dict (tree=[['d', ''], ['e', 'style', False, [T]], ['e', 'div', True, [['e', 'div', False, [['e', 'div', True, [['e', 'style', False, [T]], T]], T]], T]], T])
    yield dict (tree=[['e', 'div', True, [['e', 'script', False, []], T]], ['e', 'script', False, []], T])
    for k in ('aljazeera', 'bbcarabic'):
        sel = {'aljazeera': '<div id=DynamicContentContainer>', 'bbcarabic': '<div property=articleBody>'}[k]
        for h in ('', 'a', sel + 'b', sel + ' b <p>c</p><div>d</div> e</div>f', sel + '<script>x<div></script><style>y</style>z</div>q',
            sel + 'a' + sel + 'b</div>c</div>d' + sel + 'e', sel + '<svg><style><g>s</g>t</style>u</svg>v<br>w</div>x', '<p>x</p>' + sel + '&amp;&lt;\u0627</div><script>1</script>',
            '<div id=x>a</div><div property=y>b</div><p id=DynamicContentContainer property=articleBody>c</p>'):
            yield dict (html=h, filter=k)
def gen (rng, i):
    if i % 6 == 5:
        k = rng.choice (['aljazeera', 'bbcarabic'])
        sel = {'aljazeera': '<div id=DynamicContentContainer>', 'bbcarabic': '<div property="articleBody">'}[k]
        parts = [sel, sel, '</div>', '<div>', '</div>', 'text', ' sp ace ', '\n', '<p>', '</p>', '<b>', '</b>', '<script>var x = "<div>";</script>', '<style>a {}</style>', '<br>', '<!-- c -->', '<svg><style><g>k</g></style></svg>', 'ا', '&nbsp;', '<ul><li>i</ul>', '<img src=x>']
        return dict (html=''.join (rng.choice (parts) for _ in range (rng.randint (0, 20))), filter=k)
    n = [0]
    def tree (depth):
        out = []
        for _ in range (rng.randint (0, 4)):
            r = rng.random ()
            if r < .35 or depth == 0:
                n[0] += 1
                out.append (['t', f'w{n[0]}'])
            elif r < .42: out.append (['s', ' '])
            elif r < .47: out.append (['v', 'br'])
            elif r < .5: out.append (['c', 'com'])
            else:
                nm = rng.choice (NAMES + ['div', 'p', 'b'])
                out.append (['e', nm, nm not in ('script', 'style') and rng.random () < .35, tree (depth-1)])
        return out
    return dict (tree=tree (rng.randint (1, 6)))
def tokens (tree):
    for x in tree:
        if x[0] == 't': yield dict (type='Characters', data=x[1])
        elif x[0] == 's': yield dict (type='SpaceCharacters', data=x[1])
        elif x[0] == 'c': yield dict (type='Comment', data=x[1])
        elif x[0] == 'd': yield dict (type='Doctype', name='html', publicId=None, systemId=None)
        elif x[0] == 'v': yield dict (type='EmptyTag', name=x[1], namespace=None, data={})
        else:
            yield dict (type='StartTag', name=x[1], namespace=None, data={(None, 'm'): 1} if x[2] else {})
            yield from tokens (x[3])
            yield dict (type='EndTag', name=x[1], namespace=None)
def expected (tree, inside):
    out = ''
    for x in tree:
        if x[0] == 'e':
            if x[1] in ('script', 'style'): continue
            ins = inside or x[2]
            out += expected (x[3], ins)
            if ins and x[1] in ('p', 'div'): out += '\n\n'
        elif inside:
            out += {'t': x[1], 's': ' '}.get (x[0], '')
    return out
WS = '\t\n\x0c \r'
def edges (t):
    if not t: return ''
    m = t.strip (WS)
    if not m: return ' '
    return (' ' if t[0] in WS else '') + m + (' ' if t[-1] in WS else '')
def etreeExpected (el, inside, match):
    """ own walk over the parsed document """
    out = ''
    if not isinstance (el.tag, str):
        return ''
    name = el.tag.split ('}')[-1]
    if name in ('script', 'style'):
        return ''
    ins = inside or match (name, el.attrib)
    if ins: out += edges (el.text or '')
    for ch in el:
        out += etreeExpected (ch, ins, match)
        if ins: out += edges (ch.tail or '')
    if ins and name in ('p', 'div'): out += '\n\n'
    return out
MATCH = dict (aljazeera=lambda n, a: n == 'div' and a.get ('id') == 'DynamicContentContainer', bbcarabic=lambda n, a: n == 'div' and a.get ('property') == 'articleBody')
def check (c):
    from lulua.text import Select, HTMLSerializer, filterAvail
    if 'html' in c:
        import html5lib
        got = ''.join (filterAvail[c['filter']] (c['html']))
        want = etreeExpected (html5lib.parse (c['html']), False, MATCH[c['filter']])
        eq (got, want, 'extracted text')
        return
    toks = list (tokens (c['tree']))
    sel = Select (toks, lambda t: (None, 'm') in t['data'])
    got = ''.join (HTMLSerializer ().serialize (sel))
    eq (got, expected (c['tree'], False), 'extracted text')
    eq (''.join (HTMLSerializer ().serialize (tokens (c['tree']))), ''.join ({'t': 0}.get (0, '') or ser (t) for t in toks), 'serialised text')
def ser (t):
    if t['type'] == 'Characters': return t['data']
    if t['type'] == 'SpaceCharacters': return ' '
    if t['type'] == 'EndTag' and t['name'] in ('p', 'div'): return '\n\n'
    return ''
