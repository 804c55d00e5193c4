#!/usr/bin/env python3
"""check.py Cnn [--tier quick|thorough] [--job NAME] [--serial] [-v]

Decides one property by symbolic execution of /repo/bloscpack's current source
(see DESIGN.md).  Exit 0: held on everything explored; 1: VIOLATION line(s),
each reproduced on the real code; 2: the check itself could not decide."""
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    py = VT if os.path.exists(VT) else sys.executable
    os.execv(py, [py] + sys.argv)

import argparse
import concurrent.futures
import gc
import importlib
import json
import multiprocessing
import random
import subprocess
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('SX_REPO', '/repo')
REALPY = os.environ.get('SX_PY', '/opt/venv/bin/python')
RUN = os.path.join(HERE, 'replay', 'run.py')
PROFILES = ['random', 'zeros', 'mixed', 'ramp']
NPROC = int(os.environ.get('SX_PROCS', '0')) or min(8, os.cpu_count() or 4)


TOKENS = multiprocessing.get_context('fork').Semaphore(0)      # idle processors


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- jobs
def watch_functions(found):
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'sx')
    except ValueError:
        pass
    root = os.path.join(REPO, 'bloscpack') + os.sep

    def start(code, off):
        if code.co_filename.startswith(root) and code.co_name != '<module>':
            found.add('%s:%s' % (os.path.basename(code.co_filename)[:-3], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    mon.restart_events()


def guarded(E, scenario, H):
    """An exception that ends the scenario is a failure if the real code ends the same way."""
    try:
        scenario(H)
    except Exception as x:
        E.crash(type(x).__name__, traceback.format_exc()[-1500:])


def run_job(job, tier, seed, until=None):
    from symx import core
    from symx.symh import SymH
    t0 = time.time()
    gc.disable()
    found = set()
    watch_functions(found)
    mod, fn = job['scenario'].split(':')
    scenario = getattr(importlib.import_module(mod), fn)
    params = job.get('params', {})
    budget = job.get('budget', 300.0 if tier == 'quick' else 1200.0)
    if until is not None:
        budget = max(15.0, min(budget, until - time.time()))
    E = core.Engine(max_paths=job.get('max_paths', 60000), time_budget=budget,
                    unroll=job.get('unroll', 4), query_timeout_ms=job.get('query_ms', 20000),
                    div_mode=job.get('div_mode', 'enumerate'))
    E.tokens_free = TOKENS
    E.collect, E.absorb = (lambda: sorted(found)), found.update
    err = None
    try:
        E.explore(lambda e: guarded(e, scenario, SymH(e, tier, **params)))
    except BaseException:
        err = traceback.format_exc()[-3000:]
    rnd = random.Random('%s/%s' % (seed, job['name']))
    samples = list(E.samples)
    keep = job.get('validate', 24 if tier == 'quick' else 96)
    uns = [s for s in samples if s['status'] == 'unsupported']
    ok = [s for s in samples if s['status'] == 'ok']
    rnd.shuffle(ok)
    rnd.shuffle(uns)
    # one sample of every set of assertions first, then at random
    seen, first, rest = set(), [], []
    for s in ok:
        k = tuple(s['labels'])
        (rest if k in seen else first).append(s)
        seen.add(k)
    return {'job': job['name'], 'stats': E.stats.asdict(), 'failures': E.failures,
            'samples': (first + rest)[:keep], 'unsupported': uns[:3 * keep], 'npaths': len(samples),
            'incomplete': E.incomplete, 'functions': sorted(found), 'error': err,
            'wall': time.time() - t0}


# ----------------------------------------------------------------- replays
def replay(cases, limit=240):
    """Run cases on the real package; {id: results}."""
    if not cases:
        return {}
    n = min(NPROC, max(1, len(cases) // 4))
    env = dict(os.environ, SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', MALLOC_PERTURB_='165')
    env.pop('PYTHONPATH', None)
    procs, out = [], {}
    for k in range(n):
        p = subprocess.Popen([REALPY, RUN], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, text=True)
        procs.append((p, ''.join(json.dumps(c) + '\n' for c in cases[k::n])))

    def feed(pc):
        p, data = pc
        try:
            return p.communicate(data, timeout=limit)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            return p.communicate()[0] or ''
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for text in ex.map(feed, procs):
            for line in text.splitlines():
                try:
                    r = json.loads(line)
                    out[r['id']] = r['results']
                except ValueError:
                    pass
    return out


def case_of(job, tier, inputs, cid, profiles, **k):
    return dict(id=cid, scenario=job['scenario'], params=dict(job.get('params', {}), tier=tier),
                inputs=inputs, profiles=profiles, **k)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def is_known(prop, job, label, inputs, known):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['scenario'] == job['scenario'] \
                and k['label'] == label and \
                all(inputs.get(n) == v for n, v in k.get('inputs', {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--job')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    from scen import registry
    entry = registry.CHECKS[a.prop]
    jobs = [j for j in registry.jobs(a.prop, tier) if not a.job or a.job in j['name']]
    byname = {j['name']: j for j in jobs}
    assert len(byname) == len(jobs)
    results = []
    if a.serial:
        for j in jobs:
            results.append(run_job(j, tier, seed))
    else:
        for _ in range(NPROC - len(jobs)):
            TOKENS.release()
        with concurrent.futures.ProcessPoolExecutor(
                NPROC, mp_context=multiprocessing.get_context('fork')) as ex:
            order = sorted(jobs, key=lambda j: -j.get('cost', 1))
            until = t0 + (450 if tier == 'quick' else 5400)
            futs = {ex.submit(run_job, j, tier, seed, until): j for j in order}
            left = len(futs)
            for f in concurrent.futures.as_completed(futs):
                j = futs[f]
                left -= 1
                if left < NPROC:
                    TOKENS.release()
                try:
                    results.append(f.result())
                except Exception as e:
                    results.append({'job': j['name'], 'error': 'worker died: %r' % e, 'failures': [],
                                    'samples': [], 'unsupported': [], 'stats': {}, 'functions': [],
                                    'incomplete': 'worker died', 'wall': 0, 'npaths': 0})
    results.sort(key=lambda r: r['job'])
    t_sym = time.time() - t0

    # ---- replay counterexamples and samples on the real code
    known = known_findings()
    cases, meta = [], {}
    for r in results:
        j = byname[r['job']]
        for i, f in enumerate(r['failures']):
            for k, inp in enumerate(f['inputs']):
                cid = 'F/%s/%d/%d' % (r['job'], i, k)
                cases.append(case_of(j, tier, inp, cid, PROFILES))
                meta[cid] = ('F', r, i, f, inp)
        for i, s in enumerate(r['unsupported']):
            cid = 'U/%s/%d' % (r['job'], i)
            cases.append(case_of(j, tier, s['inputs'], cid, PROFILES[:2]))
            meta[cid] = ('U', r, i, s, s['inputs'])
        for i, s in enumerate(r['samples']):
            cid = 'S/%s/%d' % (r['job'], i)
            cases.append(case_of(j, tier, s['inputs'], cid,
                                 ['random'] if i % 3 else ['random', 'mixed']))
            meta[cid] = ('S', r, i, s, s['inputs'])
    rep = replay(cases, 240 if tier == 'quick' else 1200)

    # counterexamples that alter bytes of a digest need a content with such a digest
    again = [case_of(byname[r['job']], tier, inp, cid, ['search']) for cid, (kind, r, i, f, inp) in meta.items()
             if kind == 'F' and any('@[' in k for k in inp)
             and not any(x['status'] == 'failed' for x in rep.get(cid, []))]
    if again and not any(x['status'] == 'failed' for c in meta if meta[c][0] == 'F' for x in rep.get(c, [])):
        for cid, res in replay(again[:48], 240).items():
            rep.setdefault(cid, []).extend(res)

    violations, knownhits, undecided, errors = [], {}, {}, []
    witnesses = {r['job']: 0 for r in results}
    validated, diverged, missing, mismatch = 0, 0, 0, 0
    fstatus = {}
    for cid, (kind, r, i, f, inp) in meta.items():
        res = rep.get(cid)
        j = byname[r['job']]
        if res is None:
            missing += 1
            fstatus.setdefault((r['job'], i), []).append('missing') if kind == 'F' else None
            continue
        for x in res:
            if x['status'] == 'harness error' and f.get('crash') == x['failed'].get('exception') and \
                    "module 'bloscpack" not in x['failed']['detail']:
                x['status'] = 'failed'
                x['failed']['label'] = f['label']
            if x['status'] == 'failed':
                label = x['failed']['label']
                v = dict(job=r['job'], label=label, solver_label=f.get('label'), kind=kind,
                         inputs=inp, profile=x['profile'], detail=x['failed'].get('detail'))
                k = is_known(a.prop, j, label, inp, known)
                if k:
                    knownhits[k['id']] = k
                else:
                    violations.append((j, v))
                if kind == 'F':
                    fstatus.setdefault((r['job'], i), []).append('failed')
            elif x['status'] == 'held':
                if kind == 'S' or kind == 'U':
                    validated += 1
                    if x['labels']:
                        witnesses[r['job']] += 1
                    if kind == 'S' and f.get('outcome') is not None and \
                            repr(f['outcome']) != x['outcome'] and x['outcome'] != 'None':
                        mismatch += 1
                        if a.v:
                            say('  outcome differs:', cid, f['outcome'], x['outcome'], inp)
                else:
                    fstatus.setdefault((r['job'], i), []).append('held')
            else:
                if kind == 'F':
                    fstatus.setdefault((r['job'], i), []).append(x['status'])
                else:
                    diverged += 1
                    if a.v:
                        say('  sample not followed:', cid, x['status'], x['failed'], inp)
                if x['status'] == 'harness error':
                    errors.append('%s: %s' % (cid, x['failed']['detail']))
    for r in results:
        for i, f in enumerate(r['failures']):
            st = fstatus.get((r['job'], i), ['missing'])
            if 'failed' in st:
                continue
            undecided[(r['job'], f['label'])] = (st, f)
        if r['error']:
            errors.append('%s: %s' % (r['job'], r['error']))
        s = r['stats']
        if s and not s.get('reached') and not r['error'] and not r['failures'] and \
                not (s.get('unsupported') and witnesses[r['job']]):
            errors.append('%s: vacuous, no assertion reached' % r['job'])
        elif s and not r['failures'] and not witnesses[r['job']] and not violations:
            errors.append('%s: no path of it was reproduced on the real code' % r['job'])
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            if isinstance(v, dict):
                d = tot.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                tot[k] = tot.get(k, 0) + v

    # ---- report
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    shown, lines = set(), []
    for j, v in violations:
        key = (v['label'],)
        if key in shown:
            continue
        shown.add(key)
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (a.prop, len(shown)))
        with open(path, 'w') as fp:
            json.dump(case_of(j, tier, v['inputs'], v['job'], [v['profile']], property=a.prop,
                              label=v['label'], detail=v['detail'],
                              how='%s %s %s' % (REALPY, RUN, path)), fp, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
        say('%s: %s fails in %s: %s' % (a.prop, v['label'], v['job'], json.dumps(v['inputs'])[:400]))
    for k in knownhits.values():
        say('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    hard = []
    for (jn, label), (st, f) in undecided.items():
        say('UNDECIDED: %s %s: the solver\'s counterexample does not show on the real code (%s) %s' % (
            jn, label, ','.join(sorted(set(st))), json.dumps(f['inputs'][:1])[:300]))
        if 'held' not in st:
            hard.append(label)
    for r in results:
        if r['incomplete']:
            say('INCOMPLETE: %s: %s' % (r['job'], r['incomplete']))
    for e in errors:
        say('ERROR:', e)
    for l in lines:
        say(l)
    status = 1 if lines else 2 if errors or hard else 0
    fns = sorted(set(x for r in results for x in r['functions']))
    wall = time.time() - t0
    labels = tot.get('labels', {})
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'wall_s': round(wall, 2),
        'violations': len(lines),
        'assumptions': entry.get('assumes', []) + registry.COMMON_ASSUMPTIONS,
        'coverage': {
            'what': entry['covers'],
            'states': max(1, tot.get('paths', 0)),
            'transitions': tot.get('decisions', 0),
            'exhausted_within_bounds': not any(r['incomplete'] for r in results)
            and not tot.get('unsupported')
            and not tot.get('asserts_unknown') and not undecided and not errors,
            'bounds': dict(entry['bounds'], tier=tier,
                           jobs={j['name']: dict(j.get('params', {}), unroll=j.get('unroll', 4))
                                 for j in jobs}),
            'functions_encoded': fns,
            'queries': tot.get('queries', 0),
            'solver_s': round(tot.get('solver_s', 0), 2),
            'assertions_discharged': tot.get('asserts_discharged', 0),
            'assertions_failed': tot.get('asserts_failed', 0),
            'assertions_unknown': tot.get('asserts_unknown', 0),
            'assertion_labels': labels,
            'paths_cut_at_bound': tot.get('cut', 0),
            'cut_reasons': tot.get('cut_reasons', {}),
            'paths_outside_encoding': tot.get('unsupported', 0),
            'outside_encoding_reasons': tot.get('unsupported_reasons', {}),
            'traces_validated_against_impl': validated,
            'traces_not_followed': diverged + missing,
            'outcome_mismatches': mismatch,
            'undecided': ['%s: %s' % k for k in undecided],
            'incomplete': [r['job'] + ': ' + str(r['incomplete']) for r in results if r['incomplete']],
            'known_findings': sorted(knownhits),
            'samples': [dict(job=r['job'], inputs=r['samples'][0]['inputs'],
                             assertions=r['samples'][0]['labels'])
                        for r in results if r['samples']][:8],
        },
    }
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
    say('%s %s: %d jobs, %d paths, %d queries (%.1f s solver), %d assertions discharged, %d failed, '
        '%d unknown, %d cut, %d outside, %d replays ok, %d not followed, %d mismatched, %.1f+%.1f s' % (
            a.prop, tier, len(jobs), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0),
            tot.get('asserts_discharged', 0), tot.get('asserts_failed', 0), tot.get('asserts_unknown', 0),
            tot.get('cut', 0), tot.get('unsupported', 0), validated, diverged + missing, mismatch,
            t_sym, wall - t_sym))
    if tot.get('unsupported_reasons') or a.v:
        say('  outside:', tot.get('unsupported_reasons'), ' cut:', tot.get('cut_reasons'))
    if a.v:
        say('  labels:', labels)
        for r in results:
            say('  %-40s %6d paths %7.1f s %s' % (r['job'], r['stats'].get('paths', 0), r['wall'],
                                                  r['stats'].get('unsupported_reasons') or ''))
    sys.exit(status)


if __name__ == '__main__':
    main()
