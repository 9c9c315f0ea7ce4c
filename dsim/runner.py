"""Command line: batches over cores, verdicts, evidence, self-tests."""
import argparse
import importlib
import json
import os
import pickle
import signal
import subprocess
import sys
import traceback
from collections import Counter

from dsim import core, env, known as known_mod
from dsim.clock import real_perf

MODULES = ('recording', 'loop', 'process', 'world', 'agents', 'utilities', 'nav',
           'motion', 'crowd', 'shipped')
EVID = os.path.join(env.VERIF, 'evidence')


def scenarios():
    env.setup()
    out = {}
    for name in MODULES:
        path = os.path.join(env.HERE, 'checks', name + '.py')
        if not os.path.exists(path):
            continue
        mod = importlib.import_module('dsim.checks.' + name)
        for cls in mod.SCENARIOS:
            assert cls.id not in out
            out[cls.id] = cls()
    return out


def explore(scn, seed, runs, jobs, known, deadline):
    """Batches 0..n over forked children.  The batch layout depends on the
    number of runs only, so the number of workers changes nothing."""
    per = max(1, min(250, (runs + 15) // 16))
    todo = [(a, min(a + per, runs)) for a in range(0, runs, per)]
    results, live, skipped = [], {}, 0
    pids = {}
    bufs = {}
    import select
    try:
        while todo or live:
            stop = real_perf() > deadline or any(
                r['violation'] for r in results)
            if stop and todo:
                skipped += len(todo)
                todo = []
            while todo and len(live) < jobs:
                a, b = todo.pop(0)
                pid, fd = core._child(
                    lambda a=a, b=b: core.run_batch(scn, seed, a, b, known))
                live[fd] = (a, b)
                pids[fd] = pid
                bufs[fd] = []
            if not live:
                break
            ready, _, _ = select.select(list(live), [], [], 5.0)
            if not ready and real_perf() > deadline + 120:
                raise core.HarnessError('batches %s do not finish' % (
                    sorted(live.values()),))
            for fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    bufs[fd].append(data)
                    continue
                os.close(fd)
                os.waitpid(pids.pop(fd), 0)
                span = live.pop(fd)
                raw = b''.join(bufs.pop(fd))
                if not raw:
                    raise core.HarnessError('batch %s died' % (span,))
                kind, out = pickle.loads(raw)
                if kind != 'ok':
                    raise core.HarnessError(out)
                results.append(out)
    finally:
        for pid in pids.values():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
    results.sort(key=lambda r: r['start'])
    return results, skipped, per


def digests_in_fresh_process(prop, seed, n, hashseed):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    p = subprocess.run(
        [sys.executable, os.path.join(env.VERIF, 'check.py'), 'digests', prop,
         '--seed', str(seed), '--runs', str(n)], stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=e, timeout=600)
    if p.returncode != 0:
        raise core.HarnessError('digests failed: ' + p.stderr.decode()[-2000:])
    return p.stdout.decode().split()


def report_violation(scn, seed, res, viol, per):
    plan, outcome = viol['plan'], viol
    prefix = []
    first = core.try_plans(scn, [plan])
    if core._same(outcome, first):
        plan, tries = core.minimise(scn, plan, outcome)
    else:
        # depends on what earlier runs of the batch left behind
        prefix = [core.make_plan(scn, seed, i)
                  for i in range(res['start'], viol['run'])]
        tries = 1
        if not core._same(outcome, core.try_plans(scn, prefix + [plan], 300)):
            return None, 'not reproduced in a clean process'
        size, t0 = len(prefix), real_perf()
        while size >= 1 and real_perf() - t0 < 60:
            i = 0
            while i < len(prefix) and real_perf() - t0 < 60:
                cand = prefix[:i] + prefix[i + size:]
                tries += 1
                if core._same(outcome, core.try_plans(scn, cand + [plan],
                                                      300)):
                    prefix = cand
                else:
                    i += size
            size //= 2
    final = core.try_plans(scn, prefix + [plan], 300) or outcome
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    path = os.path.join(EVID, 'replay', '%s-%s-%s.json' % (
        scn.id, seed, viol['run']))
    with open(path, 'w') as fp:
        json.dump(dict(property=scn.id, seed=seed, run=viol['run'],
                       kind=final['kind'], message=final['message'],
                       minimiser_tries=tries, prefix=prefix, plan=plan,
                       original_plan=viol['plan']), fp, indent=1)
    if not core.fresh_replay(path):
        return None, 'replay file %s did not fail again' % path
    return path, final


def cmd_run(args):
    t0 = real_perf()
    scn = scenarios()[args.property]
    scn.prepare()
    known = known_mod.load(scn.id)
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(args.seed if args.seed is not None
               else os.environ.get('VERIF_SEED', '1'))
    runs = args.runs or (scn.quick_runs if tier == 'quick'
                         else scn.thorough_runs)
    limit = 150 if tier == 'quick' else 700
    print('property=%s tier=%s seed=%d runs=%d' % (scn.id, tier, seed, runs))
    sys.stdout.flush()
    results, skipped, per = explore(scn, seed, runs, args.jobs, known,
                                    t0 + limit)
    wall_explore = real_perf() - t0
    viol = [(r, r['violation']) for r in results if r['violation']]
    faults, probes, kn = Counter(), Counter(), Counter()
    states, distinct = set(), set()
    done = events = 0
    sim_time = 0.0
    samples = []
    for r in results:
        faults.update(r['faults'])
        probes.update(r['probes'])
        kn.update(r['known'])
        states |= r['states']
        distinct |= r['nontrivial']
        done += r['runs']
        events += r['events']
        sim_time += r['sim_time']
        samples += r['samples']
    det = 'not run (violation found)'
    if not viol:
        n = min(12, results[0]['runs'])
        got = digests_in_fresh_process(scn.id, seed, n, 4242)
        det = dict(runs_compared=n, fresh_process_other_hashseed='identical'
                   if got == results[0]['digests'][:n] else 'DIFFERENT')
    code, extra = 0, {}
    if viol:
        r, v = min(viol, key=lambda rv: rv[1]['run'])
        path, final = report_violation(scn, seed, r, v, per)
        if path is None:
            print('HARNESS: run %d violated %s (%s: %s) but %s' % (
                v['run'], scn.id, v['kind'], v['message'], final))
            code = 2
        else:
            print('%s: %s' % (final['kind'], final['message']))
            print('seed=%d run=%d' % (seed, v['run']))
            print('VIOLATION property=%s replay=%s' % (scn.id, path))
            code = 1
            extra['violation'] = dict(kind=final['kind'],
                                      message=final['message'], replay=path)
    for key, text in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (scn.id, text))
    wall = real_perf() - t0
    coverage = dict(
        evaluations=done,
        distinct_nontrivial=len(distinct),
        rule=scn.rule + '  A run is one generated plan executed start to end; '
             'distinct: different event logs; non-trivial: at least one fault '
             'fired, or at least two tasks interleaved, or the probe named in '
             'the rule was hit.',
        samples=samples[:3],
        distinct_states_or_interleavings=len(states),
        faults_fired=dict(sorted(faults.items())),
        probes=dict(sorted(probes.items())),
        known_findings_hit=dict(kn),
        events=events,
        simulated_seconds=round(sim_time, 3),
        seeds=[seed],
        runs_per_hour=int(done / max(wall_explore, 1e-9) * 3600),
        batches_skipped_for_time=skipped,
        determinism_check=det,
        components=dict(real=list(scn.real), stub=list(scn.stub)))
    coverage.update(extra)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, scn.id + '.json'), 'w') as fp:
        json.dump(dict(property=scn.id, tier=tier, seed=seed,
                       level='exploration', coverage=coverage,
                       assumptions=list(scn.assumptions),
                       wall_s=round(wall, 3), violations=len(viol)), fp,
                  indent=1, default=str)
    print('%d runs, %d distinct non-trivial, %d states/interleavings, '
          'faults %s, %.1f s, determinism %s' % (
              done, len(distinct), len(states), dict(faults), wall, det))
    return code


def cmd_replay(args):
    with open(args.property) as fp:
        rec = json.load(fp)
    scn = scenarios()[rec['property']]
    scn.prepare()
    rec, out = core.replay_file(scn, args.property)
    if out is None or out['kind'] != rec['kind']:
        print('did not fail: %s' % (out,))
        return 0
    print('%s: %s' % (out['kind'], out['message']))
    print('VIOLATION property=%s replay=%s' % (rec['property'],
                                               args.property))
    return 1


def cmd_digests(args):
    scn = scenarios()[args.property]
    scn.prepare()
    seed = int(args.seed or 1)
    out = core.in_child(lambda: core.run_batch(
        scn, seed, 0, args.runs or 12, known_mod.load(scn.id))['digests'], 500)
    print(' '.join(out))
    return 0


def cmd_selftest(args):
    """Determinism: the same seeds at one worker, at several workers, twice,
    and in fresh interpreters under other hash seeds, must give the same event
    logs."""
    bad = 0
    scns = scenarios()
    for prop in (args.more or sorted(scns)):
        scn = scns[prop]
        scn.prepare()
        n = args.runs or 96
        logs = []
        for jobs in (1, 3, 8, 8):
            results, _, _ = explore(scn, args.seed or 7, n, jobs,
                                    known_mod.load(prop), real_perf() + 600)
            logs.append([d for r in results for d in r['digests']])
        for hs in (1, 99, 31337):
            logs.append(digests_in_fresh_process(prop, args.seed or 7, n, hs))
        same = all(x == logs[0] for x in logs)
        print('%s %s over %d runs x %d executions' % (
            prop, 'deterministic' if same else 'NOT DETERMINISTIC', n,
            len(logs)))
        sys.stdout.flush()
        bad += not same
    return 2 if bad else 0


def main(argv):
    p = argparse.ArgumentParser()
    p.add_argument('cmd', choices=['run', 'replay', 'digests', 'list',
                                   'selftest', 'one'])
    p.add_argument('property', nargs='?')
    p.add_argument('more', nargs='*')
    p.add_argument('--tier')
    p.add_argument('--seed', type=int)
    p.add_argument('--runs', type=int)
    p.add_argument('--index', type=int, default=0)
    p.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    args = p.parse_args(argv)
    try:
        if args.cmd == 'list':
            for k, s in sorted(scenarios().items()):
                print(k, s.title)
            return 0
        if args.cmd == 'selftest' and args.property:
            args.more = [args.property] + args.more
        if args.cmd == 'one':
            scn = scenarios()[args.property]
            scn.prepare()
            plan = core.make_plan(scn, args.seed or 1, args.index)
            print(json.dumps(plan))
            ctx, out = core.run_plan(scn, plan)
            print('\n'.join(ctx.log))
            print(out, ctx.faults, ctx.probes)
            return 0
        return dict(run=cmd_run, replay=cmd_replay, digests=cmd_digests,
                    selftest=cmd_selftest)[args.cmd](args)
    except core.HarnessError as exc:
        print('HARNESS ERROR: %s' % exc)
        return 2
    except Exception:
        traceback.print_exc()
        print('HARNESS ERROR: no verdict')
        return 2
