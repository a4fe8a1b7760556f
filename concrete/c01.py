from common import *
from refmodel import *
RULE = 'random and shipped layouts, texts assembled from the layout\'s texts, their prefixes and noise; non-trivial: at least two characters'
def nontrivial (c): return len (c['text']) > 1
def fixed ():
    for n in LAYOUTS:
        yield dict (layout=n, text='')
        sp = specOf (layout (n))
        t = list (typable (sp))
        yield dict (layout=n, text=''.join (t))
        yield dict (layout=n, text=''.join (x[:-1] + 'Q' + x for x in t))
        yield dict (layout=n, text=''.join (reversed (t)) + '\x00')
    yield dict (spec=[[[[]], {'Dl1': 'ab', 'Dl2': 'abcd'}]], text='abcabcdab')
    yield dict (spec=[[[[]], {'Dl1': 'a', 'Dl2': 'aaa'}]], text='a'*7 + 'b' + 'aa')
    # the same text on several keys/layers
    yield dict (spec=[[[[]], {'Dl1': 'a', 'Dr3': 'a'}], [[['El_shift'], ['Er_shift']], {'Dl2': 'a', 'Dr4': 'b'}]], text='abab')
    strs, ints = mined ()
    yield dict (layout='ar-lulua', text=''.join (strs))
    yield dict (layout='ar-osx', text='\r\n'.join (strs))
def gen (rng, i):
    if i % 4 == 3:
        name = rng.choice (LAYOUTS)
        c = dict (layout=name)
        t = list (typable (specOf (layout (name))))
    else:
        alpha = rng.choice (['ab', 'abc', 'abcd', 'a\u0651\u0644\u0627', 'ab\n\t \r'])
        c = dict (spec=genLayout (rng, alpha, rng.choice ([1, 2, 3, 4, 6]), size=rng.choice ([3, 8, 20])))
        t = list (typable (c['spec']))
    n = rng.choice ([0, 1, 2, 3, 5, 8, 20, 60] + ([700] if i % 50 == 0 else []))
    out = []
    for _ in range (n):
        r = rng.random ()
        x = rng.choice (t)
        if r < .5: out.append (x)
        elif r < .8: out.append (x[:rng.randint (0, len (x))])
        elif r < .9: out.append (rng.choice ('zQ\x00é\U0001f600 \n'))
        else: out.append (rng.choice (''.join (t)))
    c['text'] = ''.join (out)
    return c
def check (c):
    from lulua.writer import Writer, SkipEvent
    from lulua.layout import ButtonCombination
    lay = layout (c['layout']) if 'layout' in c else mkLayout (c['spec'])
    typ = typable (c['spec'] if 'spec' in c else specOf (lay))
    text, pos = c['text'], 0
    limit = len (text) + 10
    for match, ev in Writer (lay).type (io.StringIO (text, newline='')):
        limit -= 1
        expect (limit > 0, 'more events than characters')
        expect (pos < len (text), 'event after the end of the text', match, ev)
        want = refLongest (typ, text[pos:])
        if isinstance (ev, SkipEvent):
            expect (want is None, f'skipped {ev.char!r} at {pos}, but {want!r} can be typed there')
            eq (ev.char, text[pos], f'skipped character at {pos}')
            pos += 1
        else:
            expect (isinstance (ev, ButtonCombination), 'neither combination nor skip', ev)
            eq (match, want, f'match at {pos}')
            m, b = combName (ev)
            expect (len (b) == 1 and (m, first_ (b)) in typ[match], f'{ev} does not type {match!r}')
            pos += len (match)
    eq (pos, len (text), 'characters consumed')
def first_ (s): return next (iter (s))
