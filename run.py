#!/usr/bin/env python3-vt
"""run.py ID [--tier quick|thorough] [--jobs N] | run.py --replay FILE

Decides one property with the symbolic executor in engine/.  Exit 0: held on
everything explored; 1: VIOLATION (replayed on the real code); 2: error."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

WALL = {'quick': 780, 'thorough': 6 * 3600}      # the whole check, seconds
AFTER = 20          # seconds left to the other tasks once one has a violation

TIERS = {
    'quick': dict(budget=200, branch_timeout=3000, claim_timeout=8000,
                  cegar=12, max_paths=20000, max_validate=60, max_enum=80),
    'thorough': dict(budget=1500, branch_timeout=8000, claim_timeout=60000,
                     cegar=30, max_paths=400000, max_validate=400,
                     max_enum=400),
}


def run_task(job):
    module, hname, pidx, opts = job
    import logging
    import resource
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from engine.symv import Task
    try:
        return Task(module, hname, pidx, dict(opts)).run()
    except BaseException as e:
        import traceback
        return {'harness': hname, 'param': pidx,
                'crash': '%s\n%s' % (e, traceback.format_exc())}


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--strict', action='store_true',
                    help='exit 2 if anything stayed inconclusive')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--all', action='store_true',
                    help='go on after a violation')
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.id
    module = prop.lower()
    mod = importlib.import_module('checks.' + module)
    opts = dict(TIERS[a.tier], prop=prop, known=known_findings(prop),
                stop_on_violation=True)
    opts.update(mod.REG.meta.get('opts', {}))
    opts.update(mod.REG.meta.get('opts_' + a.tier, {}))
    import glob
    for f in glob.glob(os.path.join(HERE, 'replays', prop + '-*.json')):
        os.unlink(f)
    jobs = []
    for h in mod.REG.harnesses:
        if a.only and a.only not in h.name:
            continue
        for i, (p, tier) in enumerate(h.params):
            if tier == 'quick' or a.tier == 'thorough':
                jobs.append((module, h.name, i, opts))
    res = []
    until = t0 + WALL[a.tier]
    with mp.Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=1) as pool:
        todo = {i: pool.apply_async(run_task, (j,))
                for i, j in enumerate(jobs)}
        while todo and time.time() < until:
            done = [i for i, r in todo.items() if r.ready()]
            if not done:
                time.sleep(0.02)
            for i in done:
                try:
                    r = todo.pop(i).get()
                except Exception as e:
                    r = {'harness': jobs[i][1], 'param': jobs[i][2],
                         'crash': repr(e)}
                res.append(r)
                if r.get('violations') and not a.all:
                    until = min(until, time.time() + AFTER)
                if not a.v:
                    continue
                r.get("seconds", 0) > 2 and print("#", r["harness"], r['param'], 'paths', r.get('paths'),
                      'val', r.get('validated'), 'skip', r.get('skipped'),
                      '%.1fs' % r.get('seconds', 0),
                      {k: round(x, 1) for k, x in
                       r.get('stats', {}).items()}, flush=True)
        pool.terminate()
    left = ['%s[%s]: stopped' % (jobs[i][1], jobs[i][2]) for i in sorted(todo)]
    return report(prop, mod, a.tier, jobs, res, time.time() - t0, a, left)


def report(prop, mod, tier, jobs, res, wall, a, left=()):
    from collections import Counter
    tot = Counter()
    fns, labels, known, samples = set(), Counter(), [], []
    viol, bad, inconclusive = [], [], list(left)
    for r in res:
        name = '%s[%s]' % (r['harness'], r['param'])
        if 'crash' in r:
            bad.append('%s crashed: %s' % (name, r['crash']))
            continue
        tot.update(r['stats'])
        tot['npaths'] += r['paths']
        tot['validated'] += r['validated']
        fns.update(r['functions'])
        samples += r['samples'][:1]
        for k, n in r['labels'].items():
            labels['%s: %s' % (r['harness'], k)] += n
        for k in r['known']:
            if k not in known:
                known.append(k)
        viol += r['violations']
        # a path whose values the real code does not confirm is not explored;
        # many of them in one harness mean that the translation is wrong
        few = len(r['mismatch']) <= max(1, r['validated'] // 20)
        for m in r['mismatch'][:2]:
            (inconclusive if few else bad).append(
                '%s: translator mismatch %s' % (name, m))
        for m in r['unreproduced'][:2]:
            inconclusive.append('%s: counterexample not reproduced %s' % (
                name, m))
        for m in sorted(set(r['undecided'])):
            inconclusive.append('%s undecided: %s' % (name, m))
        for m in sorted(set(r['incomplete'])):
            inconclusive.append('%s: %s' % (name, m))
        if r['deadline']:
            inconclusive.append('%s: budget reached' % name)
        if not r['paths'] and not r['known'] and not r['violations'] and \
                not r['incomplete']:
            bad.append('%s: no path reached the end (vacuous)' % name)
    rdir = os.path.join(HERE, 'replays')
    lines = []
    for i, v in enumerate(viol[:10]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s[%s] claim "%s": got %r, expected %r' % (
            v['harness'], v['param'], v['label'], v['got'], v['expected']))
        print('    inputs %s choices %s' % (v['inputs'], v['choices']))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for m in inconclusive[:40]:
        print('INCONCLUSIVE', m)
    for m in bad[:20]:
        print('ERROR', m[:1500])
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'model_checking',
        'coverage': {
            'states': max(1, tot['npaths']),
            'transitions': max(1, tot['decisions']),
            'traces_validated_against_impl': tot['validated'],
            'samples': samples[:5] or [{'harness': jobs[0][1]}],
            'functions_encoded': sorted(fns),
            'claims_instances': tot['claims'],
            'claims_proved_by_label': dict(sorted(labels.items())),
            'claims_closed_by_normalisation': tot['trivial'],
            'solver_queries': tot['queries'],
            'solver_unsat': tot['unsat'], 'solver_sat': tot['sat'],
            'solver_unknown': tot['unknown'],
            'solver_seconds': round(tot['time'], 2),
            'tasks': len(jobs),
            'bounds': mod.REG.meta.get('bounds', ''),
            'inconclusive': inconclusive[:60],
            'known_findings': known,
        },
        'assumptions': list(mod.REG.meta.get('assumptions', ())) + [
            'floats are modelled as exact reals; equalities are decided up '
            'to 2e-6 times the stated scale'],
        'violations': len(viol),
        'wall_s': round(wall, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d tasks, %d paths, %d claims, %d queries (%.1fs solver), '
          '%d traces validated, %.1fs' % (
              prop, tier, len(jobs), tot['npaths'], tot['claims'],
              tot['queries'], tot['time'], tot['validated'], wall))
    for ln in lines:
        print(ln)
    if lines:
        return 1
    return 2 if bad or (a.strict and inconclusive) else 0


def selftest():
    """setup: tools present, package loads symbolically and really"""
    import subprocess
    import z3
    from engine import loader
    dcf = loader.load()
    x = z3.Real('x')
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    out = subprocess.run(
        ['/opt/venv/bin/python', '-B', '-c', 'import dcf, businessdate'],
        cwd='/')
    assert out.returncode == 0
    print('ok', z3.get_version_string(), dcf.__file__)
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    import subprocess
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(
        ['/opt/venv/bin/python', '-B', os.path.join(HERE, 'engine',
                                                    'worker.py')],
        input=json.dumps(v) + '\n', capture_output=True, text=True, env=env,
        cwd='/')
    rep = json.loads(p.stdout)
    fails = [c for c in rep['claims'] if not c[1]]
    if rep['status'] == 'exception':
        fails.append(['no exception', False] + rep['exc'][:2])
    for c in fails:
        print('FAILS:', c[0], 'got', c[2], 'expected', c[3])
    if fails:
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
        return 1
    print('replay passes')
    return 0


if __name__ == '__main__':
    sys.exit(main())
