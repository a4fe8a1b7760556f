"""C08: merging.  Tables of any size in target and source, followed under an arbitrary key."""
from .events import *
class Key (SymObj): SORT = 'Key'
def tables (s):
    """ the count tables of a statistics object by name; nested ones by their keys """
    out = {}
    for n in loops.slotsOf (s):
        v = getattr (s, n)
        if n.startswith ('_') or not isinstance (v, VDict): continue
        out[n] = v
    return out
def arbitrary (s, names, keys):
    """ arbitrary contents: → {(table, subkey): counter} """
    cs = {}
    for n in names:
        t = getattr (s, n)
        if n in ('perHandRunlenDist', 'fingerRunlenDist'):
            for k, d in list (t._pairs ()):
                counter (d, keys[n], Bool ('p'), Int ('c', 0))
                cs[n, k] = d
        else:
            counter (t, keys[n], Bool ('p'), Int ('c', 0))
            cs[n, None] = t
    return cs
def look (s, n, k): return getattr (s, n) if k is None else getattr (s, n)[k]
def total (d):
    if d.gen is None: raise Unsupported ('table replaced')
    return count (d)
NAMES = dict (SimpleStats=['buttons', 'combinations', 'unknown'], TriadStats=['triads'], WordStats=['words'], RunlenStats=['perHandRunlenDist', 'fingerRunlenDist'])

def containers (o):
    out = {}
    def go (v):
        cs = loops.children (v)
        if cs is None: return
        if not isinstance (v, tuple):
            if id (v) in out: return
            out[id (v)] = v
        for _, c, _ in cs: go (c)
    for n in loops.slotsOf (o):
        if not n.startswith ('_') and n != 'writer': go (getattr (o, n))
    return out
def shared (a, b):
    x, y = containers (a), containers (b)
    return any (k in y for k in x)
def merge (cn, only=None):
    import lulua.stats as st
    cls = getattr (st, cn)
    w = StubWriter (StubLayout (StubKeyboard ()))
    names = NAMES[cn]
    keys = {n: Int ('L', 1) if cn == 'RunlenStats' else Key (name=n) for n in names}
    CTX.otherKey = lambda K: Int ('l') if isinstance (K, SymNum) else Key (name='k')
    objs = [run (cn, cls, w) for _ in range (3)]
    cs = [arbitrary (o, names, keys) for o in objs]
    a, b, c = objs
    CTX.roots.update (a=a, b=b, c=c)
    start = [{k: (tobool (d.gen.present), num (d.gen.value), total (d)) for k, d in x.items ()} for x in cs]
    # loop: the target holds its count plus the source's if that entry was met
    def inv (src):
        tgt = dict (base_[0])
        def f (act):
            i = act.iterator
            if not isinstance (i, GenIter): return None
            key = next ((k for k, d in cs[src].items () if d is i.d), None)
            if key is None: return None
            d = look (a, *key)
            return total (d) == tgt[key] + z3.If (tobool (i.seen), num (i.value), 0)
        return f
    base_ = [{k: v[2] for k, v in start[0].items ()}]
    for src, o in ((1, b), (2, c)):
        # a later merge can touch b only through containers that a and b share
        if src == 2 and not shared (a, b): break
        CTX.invariants = [('merged so far', inv (src))]
        run ('update', a.update, o)
        want = {k: base_[0][k] + start[src][k][2] for k in cs[0]}
        for (n, k) in cs[0]:
            prove (total (look (a, n, k)) == want[n, k], f'{n}: the count is the sum of both')
        base_[0] = want
        for j in (1, 2):
            for (n, k), d in cs[j].items ():
                p, v, t = start[j][n, k]
                dd = look (objs[j], n, k)
                prove (z3.And (total (dd) == t, tobool (dd.gen.present) == p), f'{n}: the merged-in statistics stay unchanged, also by later merges')
    cover ('end')
for cn in NAMES:
    harness (cn, functions=[f'stats.{cn}.update', 'stats.updateDictOp'], covers=['end'], seconds=200) (lambda cn=cn: merge (cn))
