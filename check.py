#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Translates /repo's working tree (VP_REPO overrides), runs the property's monitors over its
workloads in 8 worker processes under the project's interpreter, writes evidence/<id>.json and
prints the verdict. Exit 0: held on everything explored; 1: VIOLATION; 2: inconclusive.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
NJOBS = 8
ENV = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
           PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8')
ENV.pop('PYTHONPATH', None)
ENV.pop('PYTHONHOME', None)


def inconclusive(msg):
    print('INCONCLUSIVE: ' + msg)
    sys.exit(2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    repo = os.environ.get('VP_REPO', '/repo')
    limit = 780 if a.tier == 'quick' else 7200
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.seed, a.tier, only = r['seed'], r['tier'], '%s:%d' % (r['family'], r['case'])
    work = tempfile.mkdtemp(prefix='pykrylov-verif-')
    try:
        code = run(a, repo, work, limit, only, t0)
    finally:
        if a.keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(a, repo, work, limit, only, t0):
    build = os.path.join(work, 'lib')
    p = subprocess.run([PY, '-W', 'ignore', os.path.join(ROOT, 'lib', 'translate.py'), repo, build],
                       env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        inconclusive('translation of %s failed\n%s' % (repo, p.stdout[-2000:]))
    n = 1 if only else NJOBS
    procs = []
    for k in range(n):
        out = os.path.join(work, 'out%d.json' % k)
        log = open(os.path.join(work, 'log%d' % k), 'w')
        cmd = [PY, '-W', 'ignore', os.path.join(ROOT, 'lib', 'core.py'), build, a.prop, a.tier,
               str(a.seed), str(k), str(n), out, str(0.85 * limit)] + ([only] if only else [])
        procs.append((subprocess.Popen(cmd, env=ENV, stdout=log, stderr=log, cwd=work), out, log))
    failed = None
    for k, (p, out, log) in enumerate(procs):
        try:
            p.wait(max(0.1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            failed = failed or 'worker %d exceeded the wall-clock watchdog' % k
        if p.poll() is not None and failed is None and (p.returncode or not os.path.exists(out)):
            log.flush()
            failed = 'worker %d failed (exit %s)\n%s' % (k, p.returncode,
                                                       open(log.name).read()[-3000:])
            # the others may still have seen something: keep collecting
    for p, _, _ in procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    res = [json.load(open(out)) for _, out, _ in procs if os.path.exists(out)]
    if failed and not any(r['viol'] for r in res):
        inconclusive(failed)
    return verdict(a, res, only, t0, failed)


def verdict(a, res, only, t0, failed):
    known = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
    known = {(f['property'], f['key']): f for f in known}
    counts, maxima, sigs, samples, viol = {}, {}, set(), [], []
    for r in res:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['maxima'].items():
            maxima[k] = max(v, maxima.get(k, 0.0))
        sigs.update(r['sigs'])
        samples += r['samples']
        viol += r['viol']
    new, old = [], {}
    for v in viol:
        f = known.get((a.prop, v['key'])) if v['key'] else None
        if f:
            old.setdefault(v['key'], []).append(v)
        else:
            new.append(v)
    evals = sum(r['done'] for r in res)
    missing = [] if only else [c for c in res[0]['required'] if not counts.get(c)]
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=res[0]['rule'],
               samples=samples[:6], oracle_checks=sum(r['checks'] for r in res),
               observed={k: counts[k] for k in sorted(counts)},
               worst_deviation_over_tolerance={k[8:]: maxima[k] for k in sorted(maxima)
                                               if k.startswith('dev/tol ')},
               maxima={k: maxima[k] for k in sorted(maxima) if not k.startswith('dev/tol ')})
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    if not only:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
                  assumptions=['numpy linear algebra of the oracles is trusted',
                               'the 2to3 translation used by the project build is trusted'],
                  wall_s=round(time.time() - t0, 2), violations=len(new),
                  known_findings={k: sum(r['keyed'].get(k, 0) for r in res) for k in old})
        tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (a.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(ROOT, 'evidence', a.prop + '.json'))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s (%s; seen in %d cases of this run)'
              % (a.prop, known[(a.prop, k)]['what'], k, sum(r['keyed'].get(k, 0) for r in res)))
    if new:
        seen = set()
        for v in sorted(new, key=lambda v: (v['family'], v['case'])):
            if os.environ.get('VP_ALL'):
                print('   [%s/%d] %s: %s' % (v['family'], v['case'], v['kind'], v['msg'][:200]))
            if (v['kind'], v['family']) in seen or len(seen) >= 12:
                continue
            seen.add((v['kind'], v['family']))
            path = os.path.join('replays', '%s-%s-%s-%d.json' % (a.prop, v['family'], v['kind'].replace('/', '_').replace(' ', '_'), v['case']))
            with open(os.path.join(ROOT, path), 'w') as f:
                json.dump(dict(property=a.prop, seed=a.seed, tier=a.tier, family=v['family'], case=v['case'],
                               kind=v['kind'], message=v['msg'],
                               replay='python3 check.py %s --replay %s' % (a.prop, path)), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
            print('   [%s/%d] %s: %s' % (v['family'], v['case'], v['kind'], v['msg'][:600]))
        print('%d violations in %d cases (%.1f s)' % (len(new), evals, time.time() - t0))
        return 1
    if failed:
        inconclusive(failed)
    if missing:
        inconclusive('never observed: ' + ', '.join(missing))
    if not only and (evals != sum(r['planned'] for r in res) or not sigs):
        inconclusive('%d of the planned cases were run' % evals)
    print('%s held: %d cases (%d distinct), %d oracle checks, tier %s, seed %d, %.1f s'
          % (a.prop, evals, len(sigs), cov['oracle_checks'], a.tier, a.seed, time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
