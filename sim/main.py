"""Entry point: run.sh PROPERTY [options]."""

import argparse
import json
import os
import sys
import time
from collections import Counter

from sim import core

_mono = time.monotonic


def load(prop):
    import importlib
    return importlib.import_module('sim.checks.' + prop.lower())


def check_tree():
    import theanolm
    path = os.path.realpath(theanolm.__file__)
    if not path.startswith(core.REPO + os.sep):
        print('theanolm imported from', path, 'instead of', core.REPO)
        sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int)
    ap.add_argument('--digests', help='write index->digest to this file')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--no-minimise', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    args = ap.parse_args()
    prop = args.property
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = _mono()
    mod = load(prop)
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare()
        check_tree()
    except Exception:               # pylint: disable=broad-except
        import traceback
        frames = core.repo_frames(sys.exc_info()[2])
        traceback.print_exc()
        if not frames:
            sys.exit(2)
        path = core.write_replay(prop, 'import', {'import': True}, 'import-failure',
                                 traceback.format_exc()[-2000:], [], {})
        print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    timeout = getattr(mod, 'RUN_TIMEOUT', 240)
    known = core.load_known(prop)

    if args.replay or args.index is not None:
        if args.replay:
            with open(os.path.join(os.environ.get('VSIM_PWD', '.'), args.replay)) as f:
                plan = json.load(f)['plan']
        else:
            plan = core.make_plan(mod, prop, args.seed, tier, args.index)
        if plan.get('import'):
            print('import succeeded: not reproduced')
            sys.exit(0)
        if hasattr(mod, 'warm'):
            mod.warm(plan)
        out = core.run_forked(mod, plan, timeout)
        for line in out['tail']:
            print('  ', line)
        print(json.dumps({k: out[k] for k in ('violation', 'abort', 'error', 'findings', 'faults', 'probes', 'digest', 'steps')}, indent=1))
        sigs = [out['violation']['sig']] if out['violation'] else []
        sigs += [f[0] for f in out['findings'] if f[0] not in known]
        if out.get('error'):
            sys.exit(2)
        if sigs:
            print('VIOLATION property=%s replay=%s' % (prop, args.replay or '-'))
            sys.exit(1)
        sys.exit(0)

    runs = args.runs if args.runs is not None else mod.RUNS[tier]
    wall_cap = float(os.environ.get('VSIM_WALL', {'quick': 480, 'thorough': 7200}[tier]))
    faults, probes, aborts = Counter(), Counter(), Counter()
    digests = {}
    nontrivial = set()
    steps = 0
    n = 0
    samples = []
    violations = []
    known_hit = {}
    errors = []
    walls = []
    gen = core.drive(mod, prop, args.seed, tier, runs, args.workers, wall_cap, timeout)
    try:
        for plan, out in gen:
            n += 1
            walls.append(out['wall'])
            faults.update(out['faults'])
            probes.update(out['probes'])
            steps += out['steps']
            digests[out['index']] = out['digest']
            if out['abort']:
                aborts[out['abort'].split(':')[0]] += 1
            if out['nontrivial']:
                nontrivial.add(out['digest'])
            if len(samples) < 3 and out['nontrivial'] and not out['violation']:
                samples.append({'index': out['index'], 'faults': out['faults'], 'steps': out['steps'],
                                'digest': out['digest'], 'trace_tail': out['tail'][-4:]})
            if out['error']:
                errors.append((out['index'], out['error']))
                if len(errors) > 20:
                    break
                continue
            found = [(f[0], f[1]) for f in out['findings']]
            if out['violation']:
                found.append((out['violation']['sig'], out['violation']['detail']))
            stop = False
            for sig, detail in found:
                if sig in known:
                    known_hit.setdefault(sig, (plan, detail))
                else:
                    violations.append((sig, detail, plan, out))
                    stop = not args.keep_going
            if stop:
                break
    except core.HarnessError as e:
        errors.append((None, str(e)))
    gen.close()
    explore_wall = _mono() - t0

    if args.digests:
        with open(args.digests, 'w') as f:
            json.dump({str(k): v for k, v in sorted(digests.items())}, f, indent=0)

    # Prove that replay is exact on a sample: run again in another process.
    rerun = mism = 0
    if not violations and not errors and runs:
        todo = [i for i in sorted(digests) if i >= 0][::max(1, len(digests) // getattr(mod, 'RERUNS', 6))]
        for i in todo[:getattr(mod, 'RERUNS', 6)]:
            plan = core.make_plan(mod, prop, args.seed, tier, i)
            if hasattr(mod, 'warm'):
                mod.warm(plan)
            out = core.run_forked(mod, plan, timeout)
            rerun += 1
            if out['digest'] != digests[i]:
                mism += 1
                print('note: plan %d did not replay exactly' % i)

    code = 0
    vlist = []
    for sig, (plan, detail) in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]['what']))
    seen = set()
    for sig, detail, plan, out in violations:
        if sig in seen:
            continue
        seen.add(sig)
        tries = 0
        if not args.no_minimise and sig != 'no-progress' and not sig.startswith('crash-signal'):
            plan, tries = core.minimise(mod, plan, sig, timeout, getattr(mod, 'MINIMISE_S', 90))
        final = core.run_forked(mod, plan, timeout)
        fsig = [final['violation']['sig']] if final['violation'] else []
        fsig += [f[0] for f in final['findings']]
        dets = ([final['violation']['detail']] if final['violation'] else []) + [f[1] for f in final['findings']]
        reproduced = sig in fsig
        d = dets[fsig.index(sig)] if reproduced else detail
        name = '%s-seed%d-%s' % (tier, args.seed, core.hashlib.sha256(sig.encode()).hexdigest()[:8])
        path = core.write_replay(prop, name, plan, sig, d, final['tail'] or out['tail'],
                                 {'seed': args.seed, 'index': out['index'], 'minimise_tries': tries,
                                  'replay_reproduces': reproduced, 'faults': final['faults']})
        print('%s: %s' % (sig, d))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        vlist.append({'sig': sig, 'detail': d[:600], 'replay': path})
        code = 1
    if code == 0 and errors:
        for i, e in errors[:3]:
            print('HARNESS ERROR in plan %s:\n%s' % (i, e))
        code = 2
    if n == 0:
        code = code or 2

    if not args.no_evidence:
        write_evidence(mod, prop, tier, args.seed, n, nontrivial, steps, faults, probes, aborts,
                       samples, digests, explore_wall, _mono() - t0, vlist, known_hit, known, rerun, mism,
                       runs, walls)
    print('%s %s seed=%d: %d runs, %d distinct nontrivial, %d steps, %.1f s, faults %s%s'
          % (prop, tier, args.seed, n, len(nontrivial), steps, _mono() - t0, dict(faults),
             (', aborts %s' % dict(aborts)) if aborts else ''))
    if os.environ.get('VSIM_PROBES'):
        print('probes', json.dumps(dict(probes), indent=1, sort_keys=True))
    sys.stdout.flush()
    sys.exit(code)


def write_evidence(mod, prop, tier, seed, n, nontrivial, steps, faults, probes, aborts, samples,
                   digests, explore_wall, wall, vlist, known_hit, known, rerun, mism, runs, walls):
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': n,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'runs_planned': runs,
            'runs_per_hour': round(n / max(explore_wall, 1e-3) * 3600),
            'simulated_steps': steps,
            'simulated_time': getattr(mod, 'SIMTIME', 'steps: one step is one mini-batch update, call or disk operation of the simulated system'),
            'faults_injected': dict(sorted(faults.items())),
            'probes': dict(sorted(probes.items())),
            'distinct_traces': len(set(digests.values())),
            'distinct_measure': 'sha256 of the complete event log of a run',
            'runs_undecided': dict(aborts),
            'real_components': mod.REAL,
            'stub_components': mod.STUB,
            'replayed_runs': rerun, 'replay_mismatches': mism,
            'median_run_s': round(sorted(walls)[len(walls) // 2], 3) if walls else None,
        },
        'wall_s': round(wall, 2),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'violations': len(vlist),
        'violation_list': vlist,
        'known_findings': [known[s]['what'] for s in sorted(known_hit)],
    }
    with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
