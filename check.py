#!/usr/bin/env python3
"""Decide one property on /repo's current working tree.

usage: check.py Cxx [--tier quick|thorough]      exit 0: held; 1: VIOLATION line printed; 2: no answer
       check.py Cxx --replay FILE                re-run a recorded counterexample against the real code

Two processes run side by side:
 * prove.py Cxx   generates proof obligations from /repo's current source and discharges them (z3/cvc5)
 * concrete/run.py Cxx   evaluates the same contract at run time on the real code (search for counterexamples,
   replay of counter-models; this is also the bounded stand-in where an obligation is out of the prover's reach)
"""
import argparse, hashlib, json, os, subprocess, sys, time
HERE = os.path.dirname (os.path.abspath (__file__))
REPO = os.environ.get ('VERIF_REPO', '/repo')
EVID = os.environ.get ('VERIF_EVIDENCE', HERE + '/evidence')
PY = '/opt/venv/bin/python'
PYVT = 'python3-vt'
sys.path.insert (0, HERE)

def concrete (prop, seed, seconds, hints=None, replay=None):
    cmd = [PY, HERE + '/concrete/run.py', prop, '--seed', str (seed), '--seconds', str (seconds)]
    if hints: cmd += ['--hints', hints]
    if replay: cmd += ['--replay', replay]
    env = dict (os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str (seed % 1000), PYTHONPATH='')
    return subprocess.Popen (cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd='/tmp', start_new_session=True)

def collect (p, timeout):
    try:
        out, _ = p.communicate (timeout=timeout)
        return json.loads (out)
    except subprocess.TimeoutExpired:
        os.killpg (p.pid, 9)
        p.communicate ()
        return dict (evaluations=0, distinct=0, samples=[], failures=[], harness=[dict (case=None, message='the runtime-contract process ran out of time')], rule='', broken=True)
    except (ValueError, TypeError):
        return dict (evaluations=0, distinct=0, samples=[], failures=[], harness=[dict (case=None, message=f'the runtime-contract process died ({p.returncode})')], rule='', broken=True)

def startProof (prop, tier, seed):
    out = f'{EVID}/proof-{prop}.json'
    if os.path.exists (out): os.unlink (out)
    env = dict (os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=f'{HERE}:{REPO}:/opt/venv/lib/python3.12/site-packages', PYTHONHASHSEED='0')
    log = open (f'{EVID}/proof-{prop}.log', 'w')
    return subprocess.Popen ([PYVT, HERE + '/prove.py', prop, '--tier', tier, '--seed', str (seed), '--out', out], stdout=log, stderr=subprocess.STDOUT, env=env, cwd='/tmp', start_new_session=True), out

def main ():
    ap = argparse.ArgumentParser ()
    ap.add_argument ('prop')
    ap.add_argument ('--tier', default=os.environ.get ('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument ('--seed', type=int, default=int (os.environ.get ('VERIF_SEED', '1') or 1))
    ap.add_argument ('--replay')
    a = ap.parse_args ()
    prop = a.prop
    os.makedirs (EVID, exist_ok=True)
    if a.replay:
        r = collect (concrete (prop, a.seed, 60, replay=a.replay), 200)
        print (json.dumps (r, indent=1, ensure_ascii=False))
        return 1 if r['failures'] else 0
    t0 = time.time ()
    from config import PROPS, LEVELS
    quick = a.tier == 'quick'
    seconds = 10 if quick else 240
    limit = 420 if quick else 3000
    hasProof = PROPS[prop]['proof']
    pp = None
    if hasProof:
        pp, pout = startProof (prop, a.tier, a.seed)
    c = collect (concrete (prop, a.seed, seconds), seconds + 180)
    proof = None
    if pp:
        timedOut = False
        try:
            pp.wait (timeout=limit)
        except subprocess.TimeoutExpired:
            timedOut = True
            os.killpg (pp.pid, 9)
            pp.wait ()
        try:
            proof = json.load (open (pout))
        except (OSError, ValueError):
            proof = dict (obligations=[], functions=[], assumptions=[], error='the prover did not finish' + (' in time' if timedOut else f' (exit {pp.returncode})'))
    violations = []
    def record (kind, data):
        n = len (violations)
        path = f'{os.path.relpath (EVID, HERE) if EVID.startswith (HERE) else EVID}/replay-{prop}-{n}.json'
        with open (f'{EVID}/replay-{prop}-{n}.json', 'w') as fd:
            json.dump (data, fd, indent=1, ensure_ascii=False)
        violations.append ((kind, path))
    # counter-models of refuted obligations, replayed on the real code
    refuted = [o for o in (proof or {}).get ('obligations', []) if o['status'] in ('refuted', 'failed')]
    hints = [h for o in refuted for h in o.get ('hints', [])]
    replayed = None
    if hints and not c['failures']:
        hp = f'{EVID}/hints-{prop}.json'
        json.dump (hints, open (hp, 'w'))
        replayed = collect (concrete (prop, a.seed + 1, 20 if quick else 120, hints=hp), 200)
        if replayed['failures']: c['failures'] = replayed['failures']
        c['evaluations'] += replayed['evaluations']
        c['distinct'] += replayed['distinct']
    elif refuted and not c['failures']:
        # look longer for a failing input before reporting without one
        replayed = collect (concrete (prop, a.seed + 7, 25 if quick else 240), 300)
        if replayed['failures']: c['failures'] = replayed['failures']
        c['evaluations'] += replayed['evaluations']
        c['distinct'] += replayed['distinct']
    for f in c['failures']:
        record ('input', dict (property=prop, case=f['case'], message=f['message'], how=f'python3 check.py {prop} --replay <this file>',
            obligations=[dict (name=o['name'], detail=o.get ('detail', '')) for o in refuted]))
    if refuted and not c['failures']:
        record ('noinput', dict (property=prop, case=None, message='the verifier rejects these obligations (counter-model of the verification condition); no failing input found', obligations=refuted))
    obs = (proof or {}).get ('obligations', [])
    discharged = [o for o in obs if o['status'] == 'proved']
    undecided = [o for o in obs if o['status'] not in ('proved', 'refuted', 'failed')]
    allProved = bool (obs) and len (discharged) == len (obs) and not proof.get ('error')
    unbounded = [o for o in discharged if not o.get ('bounded')]
    complete = allProved and not any (o.get ('bounded') for o in obs)
    level = LEVELS[prop]
    if level == 'proof' and not complete:
        level = 'exploration'
    cov = dict (evaluations=c['evaluations'], distinct_nontrivial=c['distinct'], rule=c['rule'] or 'runtime contract', samples=c['samples'] or [None])
    if hasProof:
        back = {}
        for o in discharged:
            for k, v in o.get ('backends', {}).items (): back[k] = back.get (k, 0) + v
        cov.update (obligations=len (obs), discharged=len (discharged), discharged_without_bound=len (unbounded),
            checker_cmd=f'PYTHONPATH=/verif:/repo:/opt/venv/lib/python3.12/site-packages python3-vt /verif/prove.py {prop} --tier {a.tier}',
            trusted_base=(proof or {}).get ('trusted', []) or ['z3'],
            functions_under_contract=(proof or {}).get ('functions', []), solver_queries_by_backend=back,
            solver_seconds=round (sum (o.get ('seconds', 0) for o in obs), 3),
            obligation_list=[dict (name=o['name'], status=o['status'], paths=o.get ('paths'), queries=o.get ('queries'), seconds=round (o.get ('seconds', 0), 3), bounded=o.get ('bound') or o.get ('bounded', False), detail=(o.get ('detail') or '')[:400]) for o in obs],
            undecided=[o['name'] for o in undecided], prover_error=(proof or {}).get ('error'), proof_complete=complete, harnesses=(proof or {}).get ('harnesses', []))
    if not obs:
        cov['note'] = 'bounded: decided on the inputs explored above only, not proved'
    elif not complete:
        cov['note'] = 'bounded: obligations marked bounded or undecided are not proved for all inputs; the runtime contract on the inputs explored above stands in'
    ev = dict (property=prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=PROPS[prop].get ('assumptions', []) + (proof or {}).get ('assumptions', []),
        wall_s=round (time.time () - t0, 2), violations=len (violations))
    if c['harness']: cov['harness_messages'] = [h['message'][-400:] for h in c['harness']]
    with open (f'{EVID}/{prop}.json', 'w') as fd:
        json.dump (ev, fd, indent=1, ensure_ascii=False)
    for line in open (HERE + '/known-findings.txt', encoding='utf-8'):
        if line.startswith ('known: ') and f'property={prop} ' in line:
            print ('KNOWN-FINDING: ' + line[len ('known: '):].strip ())
    print (f'{prop} {a.tier}: {len (discharged)}/{len (obs)} obligations discharged ({len (unbounded)} without bound)' + (f' ({len (undecided)} undecided)' if undecided else '') + (f' [{proof["error"]}]' if proof and proof.get ('error') else '')
        + f', {c["evaluations"]} runtime-contract evaluations ({c["distinct"]} distinct non-trivial), {ev["wall_s"]} s')
    for kind, path in violations:
        print (f'VIOLATION property={prop} replay={path}' + (' no-failing-input-found' if kind == 'noinput' else ''))
    if violations:
        return 1
    if not allProved and (c.get ('broken') or c.get ('importError') or c['evaluations'] == 0 or len (c['harness']) >= c['evaluations']):
        print ('no answer:', (c['harness'] or [dict (message='')])[0]['message'][-300:])
        return 2
    return 0

if __name__ == '__main__':
    sys.exit (main ())
