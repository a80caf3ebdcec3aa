#!/usr/bin/env python3
"""Entry point of every check:  run.py C05 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything observed.  Exit 1: VIOLATION lines.  Exit 3: inconclusive (a worker
died, or the deciding monitors observed too little).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VERIF_REPO', '/repo')     # only for experiments; checks use /repo
ENV = {'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'MPLBACKEND': 'Agg',
       'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}

if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ, VERIF_CHILD='1', **ENV)
    env.setdefault('MPLCONFIGDIR', os.path.join(HERE, 'evidence', 'mpl'))
    env['PYTHONPATH'] = REPO
    os.execve(PY, [PY, '-W', 'ignore', os.path.abspath(__file__)]+sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib.core import Ctx, Violated  # noqa: E402
from vlib.checks import registry  # noqa: E402
from vlib.newborn import Nursery  # noqa: E402


def load(pid, modname):
    """Import the code under test with the monitors of one check attached."""
    mod = importlib.import_module('vlib.checks.'+modname)
    from vlib.taps import Taps, install
    import composipy
    root = os.path.dirname(os.path.dirname(os.path.abspath(composipy.__file__)))
    if os.path.realpath(root) != os.path.realpath(REPO):
        raise SystemExit(f'composipy imported from {root}')
    check = getattr(mod, pid)()
    ctx, taps = Ctx(), Taps()
    check.attach(ctx, taps)
    install(taps)
    return check, ctx, taps


CPU_LIMIT = 250      # CPU seconds of one session; the longest ones take about ten


class Endless(BaseException):
    pass


def out_of_time(*_):
    raise Endless


def run_case(check, ctx, seed, pid, i):
    import numpy as np
    ctx.case = i
    rng = np.random.default_rng([seed, int(pid[1:]), i])
    signal.signal(signal.SIGPROF, out_of_time)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        check.session(rng, i)
    except Violated:
        pass
    except Endless:
        ctx.violations.append({'key': 'endless', 'what': f'a session used {CPU_LIMIT} s of CPU time without an end', 'case': i,
                               'witness': {'trace': traceback.format_exc()[-3000:]}})
    except MemoryError:
        raise
    except Exception as e:
        # the result could not be used the way a caller uses it
        if len(ctx.violations) < 20:
            ctx.violations.append({'key': 'unusable', 'what': f'{type(e).__name__}: {e}', 'case': i,
                                   'witness': {'trace': traceback.format_exc()[-3000:]}})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(pid, modname, seed, tier, shard, shards, total, deadline, q):
    try:
        import warnings
        import numpy as np
        warnings.simplefilter('ignore')
        check, ctx, taps = load(pid, modname)
        known = known_keys(pid)
        done = 0

        def first_in_a_process(i):
            run_case(check, ctx, seed, pid, i)
            return ctx.events, ctx.distinct, ctx.samples, ctx.violations, taps.count
        every = registry.SPECS[pid]['newborn']
        nursery = Nursery(first_in_a_process) if every else None
        for i in range(shard, total, shards):
            if time.time() > deadline:
                break
            if every and i//shards % every == every-1:
                e, d, s, v, n = nursery.session(i)
                ctx.events.update(e)
                ctx.distinct |= d
                ctx.samples += s[:4-len(ctx.samples)]
                ctx.violations += v
                taps.count += n
                ctx.events['first session of a process'] += 1
            else:
                run_case(check, ctx, seed, pid, i)
            done += 1
            if sum(v['key'] not in known for v in ctx.violations) >= 2:
                break
        q.put((shard, {'done': done, 'events': dict(ctx.events), 'distinct': np.array(sorted(ctx.distinct), dtype=np.int64),
                       'samples': ctx.samples, 'violations': ctx.violations, 'taps': taps.count}))
    except BaseException:
        q.put((shard, {'error': traceback.format_exc()}))


def known_findings():
    out = []
    with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
        for line in f:
            if line.strip():
                out.append(json.loads(line))
    return out


def known_keys(pid):
    return {e['key'] for e in known_findings() if e['property'] == pid and e['status'] == 'known'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    modname = registry.CHECKS[a.pid]
    spec = registry.SPECS[a.pid]
    if a.replay:
        return replay(a.pid, modname, a.replay)
    total = max(8, int(spec[a.tier]*a.scale))
    cap = {'quick': 500, 'thorough': 740}[a.tier]
    deadline = t0+cap
    mp.set_start_method('spawn')
    q = mp.Queue()
    shards = min(a.workers, total)
    procs = [mp.Process(target=worker, args=(a.pid, modname, a.seed, a.tier, k, shards, total, deadline, q), daemon=True)
             for k in range(shards)]
    for p in procs:
        p.start()
    res = {}
    while len(res) < shards and time.time() < deadline+60:
        try:
            k, r = q.get(timeout=1)
            res[k] = r
        except Exception:
            if all(not p.is_alive() for p in procs) and q.empty():
                time.sleep(.5)
                if q.empty():
                    break
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.kill()
    errors = [r['error'] for r in res.values() if 'error' in r]
    ok = [res[k] for k in sorted(res) if 'error' not in res[k]]
    events = {}
    import numpy as np
    distinct = np.unique(np.concatenate([np.zeros(0, np.int64)]+[r['distinct'] for r in ok]))
    samples, violations = [], []
    for r in ok:
        for k, v in r['events'].items():
            events[k] = events.get(k, 0)+v
        samples += r['samples'][:2]
        violations += r['violations']
    known = known_keys(a.pid)
    new = [v for v in violations if v['key'] not in known]
    missing_known = known-{v['key'] for v in violations}
    done = sum(r['done'] for r in ok)
    short = [k for k, v in spec['need'].items() if events.get(k, 0) < v*min(1., total/spec['quick'])*.5]
    for e in known_findings():
        if e['property'] == a.pid and e['status'] == 'known' and e['key'] not in missing_known:
            print(f"KNOWN-FINDING: property={a.pid} {e['what']}")
    status = 0
    if new:
        status = 1
        rd = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in new:
            if v['key'] in shown:
                continue
            shown.add(v['key'])
            path = os.path.join(rd, f"{a.pid}-{a.seed}-{v['case']}-{len(shown)}.json")
            with open(path, 'w') as f:
                json.dump(dict(v, property=a.pid, seed=a.seed, tier=a.tier, shards=shards), f, indent=1, default=str)
            print(f"VIOLATION property={a.pid} replay={path}")
            print(f"  {v['key']}: {v['what'][:600]}")
    elif errors or len(ok) < shards or short:
        status = 3
        for e in errors[:2]:
            print(e, file=sys.stderr)
        print(f'INCONCLUSIVE property={a.pid} workers={len(ok)}/{shards} cases={done}/{total} short={short}')
    if not a.no_evidence:
        ev = {'property': a.pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
              'coverage': {
                  'evaluations': int(sum(events.values())),
                  'distinct_nontrivial': len(distinct),
                  'rule': spec['rule'],
                  'samples': samples[:6],
                  'sessions_run': done, 'sessions_planned': total,
                  'observations_by_kind': events,
                  'tapped_calls': int(sum(r['taps'] for r in ok)),
                  'workers_reporting': len(ok)},
              'assumptions': spec['assumptions'], 'wall_s': round(time.time()-t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.pid+'.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(f'{a.pid} {a.tier} seed={a.seed}: {done} sessions, {sum(events.values())} observations, '
          f'{len(distinct)} distinct, {len(new)} violations, {time.time()-t0:.1f} s')
    return status


def replay(pid, modname, path):
    """Re-run the session of a recorded violation; if it needs the sessions before it, those too."""
    with open(path) as f:
        v = json.load(f)
    check, ctx, _ = load(pid, modname)
    run_case(check, ctx, v['seed'], pid, v['case'])
    if not ctx.violations:
        for i in range(v['case'] % v['shards'], v['case']+1, v['shards']):
            run_case(check, ctx, v['seed'], pid, i)
    for w in ctx.violations:
        print(json.dumps(w, indent=1, default=str))
    if ctx.violations:
        print(f'VIOLATION property={pid} replay={path}')
    return 1 if ctx.violations else 0


if __name__ == '__main__':
    sys.exit(main())
