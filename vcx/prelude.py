"""Library functions over sequences of unknown length, as the loops they stand for.  Instrumented like the code under
verification, so that their loops are cut with invariants like any other."""
SOURCE = '''
def joinLoop (sep, xs, r):
    first = True
    for x in xs:
        if first: first = False
        elif sep: r = r + sep
        r = r + x
    return r
def join0 (xs, r):
    for x in xs: r = r + x
    return r
def collect (xs):
    r = []
    for x in xs: r.append (x)
    return r
def each (xs, f):
    for x in xs: f (x)
def fill (xs):
    r = {}
    for k, v in xs: r[k] = v
    return r
def fold (xs, r):
    for x in xs: r = r + x
    return r
def anyLoop (xs):
    for x in xs:
        if x: return True
    return False
def allLoop (xs):
    for x in xs:
        if not x: return False
    return True
'''
_g = {}
def get (name):
    if not _g:
        from . import instr, models
        code, _ = instr.instrument (SOURCE, __file__, 'vcx.prelude')
        _g.update (__builtins__=models.BUILTINS, vcx__=models.Hooks)
        exec (code, _g)
    return _g[name]
