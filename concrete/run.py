"""Run the runtime contract of one property against the real code.
usage: run.py Cxx --seed N --seconds S [--hints FILE] [--replay FILE]   (prints one JSON object)"""
import argparse, importlib, json, os, random, sys, time, traceback, signal, warnings, logging
warnings.simplefilter ('ignore')
logging.disable (logging.CRITICAL)
sys.path.insert (0, os.path.dirname (os.path.abspath (__file__)))
REPO = os.environ.get ('VERIF_REPO', '/repo')
sys.path.insert (0, REPO)
sys.dont_write_bytecode = True
import common
from common import Fail

class Timeout (BaseException):
    pass

def onAlarm (s, f):
    raise Timeout ()

def evaluate (mod, case, limit):
    """ → (None|'fail'|'harness', message) """
    signal.signal (signal.SIGALRM, onAlarm)
    signal.setitimer (signal.ITIMER_REAL, limit)
    try:
        mod.check (case)
        return None, ''
    except Fail as e:
        return 'fail', str (e)
    except Timeout:
        return 'fail', f'did not terminate within {limit} s'
    except RecursionError as e:
        return 'fail', f'RecursionError {e}'
    except Exception as e:
        tb = traceback.extract_tb (e.__traceback__)
        inRepo = any (f.filename.startswith (REPO + '/lulua/') for f in tb)
        msg = ''.join (traceback.format_exception (e))[-2500:]
        # an exception that passed through the code under test, for an input the contract allows
        if inRepo:
            return 'fail', f'unexpected {type (e).__name__}: {e}\n{msg}'
        # the oracle stumbled over what it was given: malformed output; not if it merely could not find or call something
        if not isinstance (e, (AttributeError, ImportError, NameError, OSError, MemoryError)) and not (isinstance (e, TypeError) and 'argument' in str (e)):
            return 'fail', f'the result is malformed: {type (e).__name__}: {e}\n{msg}'
        return 'harness', msg
    finally:
        signal.setitimer (signal.ITIMER_REAL, 0)

def main ():
    p = argparse.ArgumentParser ()
    p.add_argument ('prop')
    p.add_argument ('--seed', type=int, default=1)
    p.add_argument ('--seconds', type=float, default=10)
    p.add_argument ('--max', type=int, default=10**9)
    p.add_argument ('--hints')
    p.add_argument ('--replay')
    args = p.parse_args ()
    out = dict (property=args.prop, evaluations=0, distinct=0, samples=[], failures=[], harness=[], rule='')
    realout = os.dup (1)
    os.dup2 (2, 1)
    try:
        mod = importlib.import_module (args.prop.lower ())
        # the code under test must be /repo's
        import lulua
        assert os.path.realpath (list (lulua.__path__)[0]) == os.path.realpath (REPO + '/lulua'), lulua.__path__
    except Exception as e:
        tb = traceback.format_exc ()
        out['harness'].append (dict (case=None, message=tb[-2000:]))
        out['importError'] = True
        os.write (realout, json.dumps (out).encode ())
        return
    limit = getattr (mod, 'CASE_SECONDS', 20)
    if args.replay:
        case = json.load (open (args.replay))['case']
        r, msg = evaluate (mod, case, limit)
        out['failures'] = [dict (case=case, message=msg)] if r == 'fail' else []
        out['harness'] = [dict (case=case, message=msg)] if r == 'harness' else []
        os.write (realout, json.dumps (out).encode ())
        return
    rng = random.Random (args.seed * 1000003 + int (args.prop[1:]))
    out['rule'] = mod.RULE
    seen = set ()
    start = time.time ()
    def cases ():
        if args.hints and os.path.exists (args.hints):
            for h in json.load (open (args.hints)):
                yield h
        yield from mod.fixed ()
        i = 0
        while True:
            yield mod.gen (rng, i)
            i += 1
    seconds = args.seconds * float (getattr (mod, 'TIME_FACTOR', 1))
    try:
        for case in cases ():
            if time.time () - start > seconds or out['evaluations'] >= args.max:
                break
            case = json.loads (json.dumps (case))
            r, msg = evaluate (mod, case, limit)
            out['evaluations'] += 1
            key = json.dumps (case, sort_keys=True)
            if key not in seen and getattr (mod, 'nontrivial', lambda c: True) (case):
                seen.add (key)
                if len (out['samples']) < 3 and len (key) < 600 and out['evaluations'] % 7 == 3:
                    out['samples'].append (case)
            if r == 'fail':
                out['failures'].append (dict (case=case, message=msg))
                if len (out['failures']) >= 1:
                    break
            elif r == 'harness':
                out['harness'].append (dict (case=case, message=msg))
                if len (out['harness']) > 20:
                    break
    except Exception:
        out['harness'].append (dict (case=None, message=traceback.format_exc ()[-2000:]))
    out['distinct'] = len (seen)
    if not out['samples'] and seen:
        out['samples'] = [json.loads (min (seen, key=len))]
    out['wall'] = time.time () - start
    out['harness'] = out['harness'][:3]
    os.write (realout, json.dumps (out).encode ())

if __name__ == '__main__':
    main ()
