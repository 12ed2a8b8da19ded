"""
./run <property> : run the check of one property; see core.py
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('LFMV_EVIDENCE', os.path.join(ROOT, 'evidence'))
CASE_S = {'quick': 240, 'thorough': 900}
BUDGET_S = {'quick': 420, 'thorough': 7200}     # no further cases are started after this
MAX_VIOLATIONS = 5


def execute(check, case, case_s):
    """run one case; returns a plain dict."""
    from lfmv import core
    obs = core.Observer()
    res = {'violation': None, 'inconclusive': None}

    def on_alarm(*_):
        raise core.CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case_s)
    import numpy as np
    import random
    s = core.seed_of('rng', json.dumps(case, sort_keys=True))
    np.random.seed(s)
    random.seed(s)
    old_out = sys.stdout
    try:
        check.run(case, obs)
    except core.Violated as e:
        res['violation'] = [e.mech, e.msg]
    except core.StepLimit as e:
        res['violation'] = ['steps', 'logical step bound exceeded: ' + str(e)]
    except core.Inconclusive as e:
        res['inconclusive'] = 'inconclusive: ' + str(e)
    except core.CaseTimeout:
        res['inconclusive'] = 'watchdog: case did not finish within %d s' % case_s
    except MemoryError:
        res['inconclusive'] = 'out of memory'
    except (TypeError, AttributeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError):
        # what the library produced has not the form (type, shape, structure) every oracle relies on
        res['violation'] = ['malformed', 'observed state or result cannot be evaluated: ' + traceback.format_exc()[-1200:]]
    except Exception:
        res['inconclusive'] = 'harness error: ' + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
        sys.stdout = old_out
    sample = json.loads(json.dumps(obs.sample, default=lambda o: o.tolist() if hasattr(o, 'tolist') else str(o)))
    res.update(evals=obs.evals, keys=sorted(obs.keys), counters=obs.counters, sample=sample)
    return res


def worker(name, case_s, inq, outq):
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    check = importlib.import_module('lfmv.checks.' + name)
    sys.stdout = open(os.devnull, 'w')      # the library prints a lot
    while True:
        item = inq.get()
        if item is None:
            return
        i, case = item
        outq.put((i, execute(check, case, case_s)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--profile', action='store_true')
    a = ap.parse_args()
    pid = a.property.upper()
    name = pid.lower()
    t0 = time.time()

    from lfmv import core
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    core.load()
    check = importlib.import_module('lfmv.checks.' + name)

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        r = execute(check, rec['case'], CASE_S['thorough'])
        print(json.dumps({k: r[k] for k in ('violation', 'inconclusive', 'counters')}, indent=1))
        if r['violation']:
            print('VIOLATION property=%s replay=%s' % (pid, a.replay))
            return 1
        return 0 if r['inconclusive'] is None else 2

    known = load_known(pid)
    cases = check.cases(a.tier, a.seed)
    ctx = mp.get_context('fork')
    inq, outq = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(name, CASE_S[a.tier], inq, outq), daemon=False)
             for _ in range(min(a.jobs, max(1, len(cases))))]
    for p in procs:
        p.start()

    evals, keys, counters, samples, violations, inconcl, suppressed = 0, set(), {}, [], [], [], []
    started = done = 0
    skipped = 0
    todo = list(enumerate(cases))
    pos = 0
    stop = False
    inflight = set()
    last = time.time()
    while True:
        while not stop and pos < len(todo) and len(inflight) < 2 * len(procs):
            if time.time() - t0 > BUDGET_S[a.tier]:
                skipped = len(todo) - pos
                stop = True
                break
            inq.put(todo[pos])
            inflight.add(pos)
            pos += 1
        if not inflight:
            break
        try:
            i, r = outq.get(timeout=5)
            last = time.time()
        except Exception:
            if not any(p.is_alive() for p in procs) or time.time() - last > CASE_S[a.tier] + 60:
                inconcl.append('worker died or is stuck (cases %s)' % sorted(inflight)[:5])
                break
            continue
        inflight.discard(i)
        done += 1
        evals += r['evals']
        keys.update(r['keys'])
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        if r['sample'] is not None and len(samples) < 6 and (len(samples) < 3 or i % 7 == 0):
            samples.append(r['sample'])
        if r['violation']:
            mech = r['violation'][0]
            if mech in known:
                suppressed.append((mech, r['violation'][1]))
            else:
                violations.append((cases[i], r['violation']))
                if len(violations) >= MAX_VIOLATIONS:
                    stop = True
                    while True:     # drop what has not been started
                        try:
                            j = inq.get_nowait()
                            inflight.discard(j[0])
                        except Exception:
                            break
        if r['inconclusive']:
            inconcl.append(r['inconclusive'])
    for p in procs:
        inq.put(None)
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
            p.join(timeout=2)
            if p.is_alive():
                p.kill()

    missing = {k: v for k, v in check.REQUIRED.items() if counters.get(k, 0) < v}
    wall = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    write_evidence(pid, a, check, evals, keys, counters, samples, violations, wall, len(cases), done, skipped, inconcl)

    for mech, what in sorted({m: w for m, w in suppressed}.items()):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[mech], what[:150]))
    print('%s %s seed=%d: %d/%d cases, %d oracle evaluations, %d distinct non-trivial, %.1f s' %
          (pid, a.tier, a.seed, done, len(cases), evals, len(keys), wall))
    print('observed: ' + json.dumps(counters, sort_keys=True))
    if violations:
        rdir = os.path.join(EVID, 'replays')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for case, (mech, msg) in violations:
            if mech in seen:
                continue
            seen.add(mech)
            path = os.path.join(rdir, '%s-%s.json' % (pid, ''.join(c if c.isalnum() else '_' for c in mech)[:40]))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'mechanism': mech, 'message': msg, 'case': case}, f, indent=1)
            print('  %s: %s' % (mech, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if inconcl:
        print('INCONCLUSIVE (%d): %s' % (len(inconcl), inconcl[0]))
        return 2
    if missing:
        print('INCONCLUSIVE: monitors observed too little: %s' % missing)
        return 2
    return 0


def load_known(pid):
    """known findings: lines `known: property=<id> mech=<mechanism> <what fails>`"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('mech='):
                out[w[2][5:]] = w[3].strip()
    return out


def write_evidence(pid, a, check, evals, keys, counters, samples, violations, wall, ncases, done, skipped, inconcl):
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': check.RULE,
                       'samples': [s if len(json.dumps(s)) < 3000 else json.dumps(s)[:3000] for s in samples],
                       'cases_planned': ncases, 'cases_run': done, 'cases_skipped_for_time': skipped,
                       'observed': counters, 'inconclusive_cases': len(inconcl)},
          'assumptions': getattr(check, 'ASSUMPTIONS', []) + [
              'kernels run as plain Python (NUMBA_DISABLE_JIT=1), as in the build and tests of this sandbox'],
          'wall_s': round(wall, 2), 'violations': len(violations)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
