"""Generate and discharge the proof obligations of one property from /repo's current source.
usage: prove.py Cxx [--tier quick|thorough] [--out FILE] [--only NAME] [--debug]"""
import argparse, importlib, json, os, sys, time, traceback, warnings, multiprocessing, signal
warnings.simplefilter ('ignore')
sys.path.insert (0, os.path.dirname (os.path.abspath (__file__)))
sys.setrecursionlimit (20000)

def runOne (h, q, debug):
    from vcx.core import CTX, Unsupported, explore, VcxSignal
    import resource
    resource.setrlimit (resource.RLIMIT_AS, (6 << 30, 6 << 30))
    CTX.mode, CTX.unroll, CTX.maxArrivals, CTX.debug = h['mode'], h['unroll'], h['arrivals'], debug
    CTX.deadline = time.time () + h['seconds']
    CTX.cutLoops = set (h['cut'])
    err = None
    t = time.time ()
    stats = (0, 0)
    try:
        if os.environ.get ('VCX_PROFILE'):
            import cProfile
            prof = cProfile.Profile ()
            try: stats = prof.runcall (explore, h['fn'])
            finally: prof.print_stats ('cumtime')
        else: stats = explore (h['fn'])
    except Unsupported as e:
        err = f'outside the supported subset or budget: {e}'
        if debug: traceback.print_exc ()
    except VcxSignal as e:
        err = f'engine: {e!r}'
    except MemoryError:
        err = 'out of memory'
    except Exception as e:
        err = 'specification harness: ' + ''.join (traceback.format_exception (e))[-1500:]
    obl = list (CTX.obl.values ())
    missing = [c for c in h['covers'] if not any (x.startswith (c) for x in CTX.covers)]
    if err is None and missing and not any (o['status'] in ('failed', 'refuted') for o in obl): err = f'vacuous: not reached: {missing}'
    if err is None and not obl: err = 'no obligation generated'
    if h['refute']:
        # a search for counterexamples on short histories: counts for nothing unless it finds one
        obl = [o for o in obl if o['status'] in ('refuted', 'failed')]
        err = None
    inc = None if err or not CTX.incomplete else f'outside the supported subset: {sorted (CTX.incomplete)[0]}'
    for o in obl:
        if inc and o['status'] == 'proved': o['status'], o['detail'] = 'unknown', inc
        o['harness'] = h['name']
        o['bounded'] = bool (h['bound'])
        if h['bound']: o['bound'] = h['bound']
        if err and o['status'] in ('proved', 'failed'):
            o['status'] = 'unknown'
            o['detail'] = err
    if err and not obl:
        obl = [dict (name=h['name'], harness=h['name'], status='unknown', paths=0, queries=0, seconds=0.0, backends={}, detail=err, hints=[], bounded=bool (h['bound']))]
    q.put (dict (obligations=obl, error=err, paths=stats, seconds=time.time () - t, queries=CTX.queries, loops=sorted (CTX.loopsSeen), cuts=sorted ({k[0] for k in CTX.cutKeys} | {k[0] for k, i in CTX.loops.items () if i.cut and i.changed})))

def main ():
    ap = argparse.ArgumentParser ()
    ap.add_argument ('prop')
    ap.add_argument ('--tier', default='quick')
    ap.add_argument ('--seed', type=int, default=1)
    ap.add_argument ('--out')
    ap.add_argument ('--only')
    ap.add_argument ('--debug', action='store_true')
    a = ap.parse_args ()
    out = dict (property=a.prop, obligations=[], functions=[], assumptions=[], trusted=[], error=None, harnesses=[])
    t0 = time.time ()
    try:
        from specs import api
        importlib.import_module ('specs.' + a.prop.lower ())
        hs = [h for h in api.HARNESSES if (a.tier == 'thorough' or h['tier'] == 'quick') and (not a.only or a.only in h['name'])]
    except Exception as e:
        out['error'] = 'the specification could not be loaded: ' + traceback.format_exc ()[-1500:]
        hs = []
    ctx = multiprocessing.get_context ('fork')
    todo, running = list (hs), []
    results = {}
    while todo or running:
        while todo and len (running) < 8:
            h = todo.pop (0)
            q = ctx.SimpleQueue ()
            p = ctx.Process (target=runOne, args=(h, q, a.debug))
            p.start ()
            running.append ((h, p, q, time.time ()))
        for r in list (running):
            h, p, q, t = r
            if not q.empty ():
                results[h['name']] = q.get ()
                p.join (5)
                if p.is_alive (): p.kill ()
                running.remove (r)
            elif not p.is_alive ():
                if q.empty ():
                    results[h['name']] = dict (obligations=[dict (name=h['name'], status='unknown', detail=f'prover process died ({p.exitcode})', paths=0, queries=0, seconds=0.0, backends={}, hints=[])], error='died')
                    running.remove (r)
            elif time.time () - t > h['seconds'] * 1.5 + 60:
                p.kill ()
                results[h['name']] = dict (obligations=[dict (name=h['name'], status='unknown', detail='out of time', paths=0, queries=0, seconds=0.0, backends={}, hints=[])], error='out of time')
                running.remove (r)
        time.sleep (0.02)
    fns = set ()
    for h in hs:
        r = results[h['name']]
        for o in r['obligations']:
            o['name'] = f'{h["name"]}: {o["name"]}' if o['name'] != h['name'] else o['name']
        out['obligations'] += r['obligations']
        out['harnesses'].append (dict (name=h['name'], paths=r.get ('paths'), seconds=round (r.get ('seconds', 0), 2), queries=r.get ('queries'), loops=r.get ('loops'), cut=r.get ('cuts'), error=r['error'], bound=h['bound']))
        fns |= set (h['functions'])
    out['functions'] = sorted (fns)
    if 'api' in locals (): out['assumptions'] = api.ASSUMPTIONS
    out['trusted'] = ['z3 4.x', 'cvc5 1.1.2', 'CPython 3.12 executing the instrumented functions', 'vcx engine (instrumentation, symbolic values, loop rule, library stand-ins listed in DESIGN.md)']
    if a.out:
        with open (a.out, 'w') as fd: json.dump (out, fd, indent=1, default=str)
    for h in out['harnesses']: print (h)
    for o in out['obligations']: print (o['status'], o['name'], o.get ('paths'), round (o.get ('seconds', 0), 2), o.get ('backends'), (o.get ('detail') or '')[:1500])
    if out['error']: print (out['error'])
    print (f'{time.time () - t0:.1f} s')
    return 0
if __name__ == '__main__':
    sys.exit (main ())
