'''Entry point:  python -m mc.run C01 --tier quick | --replay FILE'''
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core


def find_module(prop):
    return importlib.import_module('mc.checks.' + prop.lower())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '8')))
    ap.add_argument('--budget', type=float, default=None)
    args = ap.parse_args()
    prop = args.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        module = find_module(prop)
    except Exception as exc:
        # the code under test cannot even be imported by the harness
        import traceback
        traceback.print_exc()
        return 2

    if args.replay:
        with open(args.replay) as f:
            art = json.load(f)
        scratch = tempfile.mkdtemp(prefix='mc_replay_', dir='/tmp')
        out = sys.stdout
        try:
            os.chdir(scratch)
            if hasattr(module, 'prepare'):
                module.prepare(args.tier)
            core._silence()
            res = core.run_one(module, art['case'], core.Ctx(art.get('tier', args.tier), scratch),
                               getattr(module, 'CASE_TIMEOUT', 120))
        finally:
            sys.stdout = out
            os.chdir('/')
            shutil.rmtree(scratch, ignore_errors=True)
        if res is None:
            print('replay: property held')
            return 0
        print('replay: {}\n{}'.format(*res))
        print('VIOLATION property={} replay={}'.format(prop, args.replay))
        return 1

    budget = args.budget or (getattr(module, 'BUDGET', {}).get(args.tier) or
                             {'quick': 600, 'thorough': 3 * 3600}[args.tier])
    r = core.explore(prop, module, args.tier, seed, budget, args.jobs)

    for key, text in r.known.items():
        if key in r.known_hits:
            print('KNOWN-FINDING: property={} {} [{}]'.format(prop, text, key))
    n = len(r.cases)
    samples = [r.cases[i] for i in sorted({0, n // 3, (2 * n) // 3, n - 1})]
    level = getattr(module, 'LEVEL', 'model_checking')
    coverage = {
        'rule': getattr(module, 'RULE', (module.__doc__ or '').strip()),
        'samples': samples,
        'cases_enumerated': n,
        'distinct_outcomes': len(r.outcomes),
        'exhaustive': (not r.capped and not r.violations and r.done == n),
    }
    if level == 'model_checking':
        coverage.update(states=len(r.states), transitions=r.transitions,
                        traces_validated_against_impl=r.traces)
    else:
        coverage.update(evaluations=r.transitions, distinct_nontrivial=len(r.states))
    if r.capped:
        coverage['cap'] = 'time budget {}s hit after {} of {} cases'.format(budget, r.done, n)
    evidence = {
        'property': prop, 'tier': args.tier, 'seed': seed,
        'level': level,
        'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(r.violations),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    if not os.environ.get('MC_NO_EVIDENCE'):
        path = os.path.join(core.VERIF, 'evidence', prop + '.json')
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write('\n')
        os.replace(tmp, path)
    print('{} {}: cases={}/{} states={} transitions={} outcomes={} wall={:.1f}s{}'.format(
        prop, args.tier, r.done, n, len(r.states), r.transitions, len(r.outcomes), r.wall,
        ' CAPPED' if r.capped else ''))
    if r.violations:
        idx, key, msg = r.violations[0]
        rdir = os.path.join(core.VERIF, 'replays', prop)
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, 'case_{}.json'.format(idx))
        with open(rpath, 'w') as f:
            json.dump({'property': prop, 'tier': args.tier, 'case': r.cases[idx], 'key': key,
                       'message': msg}, f, indent=1, default=str)
        print('case: {}'.format(json.dumps(r.cases[idx], default=str)[:2000]))
        print('key: {}\n{}'.format(key, msg))
        print('VIOLATION property={} replay={}'.format(prop, rpath))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
