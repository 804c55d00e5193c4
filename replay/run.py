"""Replays a batch of cases (JSON lines on stdin) on the real package.

Each line: {"scenario": "module:function", "params": {...}, "inputs": {...},
"profiles": [...]}; prints one JSON line per case.  Also usable on a file:
  run.py REPLAYFILE
exit status 1 when the recorded violation shows."""
import importlib
import json
import os
import resource
import signal
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Timeout(BaseException):
    pass


def one(case, ConcH):
    mod, fn = case['scenario'].split(':')
    scenario = getattr(importlib.import_module(mod), fn)
    results = []
    profiles = case.get('profiles') or ['random']
    if profiles == ['search']:
        return search(case, ConcH)
    for prof in profiles:
        H = ConcH(case['inputs'], prof, **case.get('params', {}))

        def alarm(*a):
            raise Timeout()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(case.get('timeout', 20)))
        try:
            status = H.run(lambda h: scenario(h))
        except Timeout:
            status = 'timeout'
        except MemoryError:
            status = 'toobig'
        except Exception as e:
            status = 'harness error'
            import traceback
            H.failed = {'label': 'harness error', 'detail': traceback.format_exc()[-1500:],
                        'exception': type(e).__name__}
        finally:
            signal.alarm(0)
        results.append({'profile': prof, 'status': status, 'failed': H.failed,
                        'labels': list(dict.fromkeys(H.labels)),
                        'outcome': repr(H._outcome)})
        if status == 'failed' and case.get('stop_at_failure', True):
            break
    return results


def search(case, ConcH, tries=1500, seconds=25):
    """Contents for which the bytes that the counterexample alters are as in the model."""
    end = time.time() + seconds
    last = []
    for i in range(tries):
        last = one(dict(case, profiles=['seed%d' % i]), ConcH)
        if last[0]['status'] not in ('diverged', 'held') or time.time() > end:
            break
    return last


def main():
    from conch import ConcH
    limit()
    if len(sys.argv) > 1:
        with open(sys.argv[1]) as f:
            case = json.load(f)
        res = one(case, ConcH)
        for r in res:
            print(json.dumps(r, indent=1))
        sys.exit(1 if any(r['status'] in ('failed', 'harness error') for r in res) else 0)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        case = json.loads(line)
        out.write(json.dumps({'id': case.get('id'), 'results': one(case, ConcH)}) + '\n')
        out.flush()


main()
