#!/opt/venv/bin/python
"""Run the check of one property:  run.py C05 [quick|thorough]   |   run.py --replay FILE
Exit 0: held; 1: VIOLATION printed; 2: harness error."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

if os.environ.get('VF_BOOT') != '1':
    env = dict(os.environ, VF_BOOT='1', PYTHONHASHSEED='0', PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1',
               PYTHONNOUSERSITE='1', LC_ALL='C.UTF-8', PYTHONPATH=REPO, TZ='UTC')
    env.pop('PYTHONWARNINGS', None)
    # an unused cache prefix: stale __pycache__ of /repo is never read
    os.execve(sys.executable, [sys.executable, '-X', 'pycache_prefix=/nonexistent/vf-pycache', os.path.abspath(__file__)] + sys.argv[1:], env)

import hashlib
import importlib
import json
import logging
import resource
import shutil
import signal
import tempfile
import time

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
WORKERS = 8


def load(prop):
    import udapi
    where = os.path.realpath(udapi.__path__[0] if hasattr(udapi, '__path__') else udapi.__file__)
    if not where.startswith(os.path.realpath(REPO) + '/'):
        raise SystemExit(f"udapi is imported from {where}, not from {REPO}")
    return importlib.import_module('checks.' + prop.lower())


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding:') and f'property={prop} ' in line:
                rest = line.split(f'property={prop} ', 1)[1]
                key, what = rest.split(' ', 1)
                out.append((key.split('=', 1)[1], what))
    return out


def worker(w, prop, tier, seed, outfile, deadline, only):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    logging.disable(logging.CRITICAL)
    sys.stdin = open(os.devnull)
    from vf import engine
    mod = load(prop)
    engine.start_coverage(os.path.realpath(REPO) + '/udapi/')
    results = []
    for facet, spec in mod.FACETS.items():
        if only and facet not in only:
            continue
        n = spec[tier]
        idx = [i for i in range(n) if i % WORKERS == w]
        t = time.time()
        r = engine.run_shard(prop, facet, spec['fn'], seed, idx, deadline)
        r['wall'] = time.time() - t
        results.append(r)
    with open(outfile, 'w') as f:
        json.dump(results, f)


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if sys.argv[1] == '--selftest':
        import udapi
        from vf import engine
        def toy(g):
            engine.check(sum(g.list(lambda: g.int(0, 9), 0, 9)) < 12, 'toy')
        signal.signal(signal.SIGVTALRM, engine._on_alarm)
        r = engine.run_shard('selftest', 'toy', toy, 1, range(400), time.time() + 60)
        ok = bool(r['failures']) and len(r['failures'][0]['choices']) <= 8
        print('selftest', 'ok' if ok else r['failures'])
        return 0 if ok else 2
    prop = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER')) or 'quick'
    only = set(sys.argv[3].split(',')) if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    logging.disable(logging.CRITICAL)
    tmp = tempfile.mkdtemp(prefix='vf-')
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    try:
        return run(prop, tier, seed, only, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, only, t0, tmp):
    mod = load(prop)
    for facet, spec in mod.FACETS.items():
        if not isinstance(spec, dict) or 'fn' not in spec:
            raise SystemExit(f'bad facet {facet}')
    # generous wall limit: only a safety net, the case counts are the normal bound
    deadline = t0 + (420 if tier == 'quick' else 780)
    pids = {}
    for w in range(WORKERS):
        out = os.path.join(tmp, f'w{w}.json')
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                worker(w, prop, tier, seed, out, deadline, only)
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = (w, out)
    bad, results = [], []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w, out = pids.pop(pid)
        if status != 0 or not os.path.exists(out):
            bad.append((w, status))
            continue
        results.extend(json.load(open(out)))
    facets = {}
    allhash, samples, failures = set(), [], []
    for r in results:
        f = facets.setdefault(r['facet'], dict(evaluations=0, rejected=0, mutated=0, distinct_nontrivial=0, truncated=False, cpu_wall=0.0, _h=set()))
        for k in ('evaluations', 'rejected', 'mutated'):
            f[k] += r[k]
        f['cpu_wall'] = round(f['cpu_wall'] + r['wall'], 2)
        f['truncated'] |= r['truncated']
        f['_h'].update(r['hashes'])
        if sum(1 for s in samples if s['facet'] == r['facet']) < 2:
            for s in r['samples'][:1]:
                samples.append(dict(facet=r['facet'], case=s))
        failures.extend(r['failures'])
    total = 0
    for name, f in facets.items():
        f['distinct_nontrivial'] = len(f.pop('_h'))
        total += f['distinct_nontrivial']
    # known findings: pinned reproductions, run on the real code
    pinned = getattr(mod, 'KNOWN', {})
    known_lines = []
    for key, what in known_findings(prop):
        fn = pinned.get(key)
        if fn is None:
            print(f'known finding {key} has no pinned reproduction', file=sys.stderr)
            return 2
        if fn():
            known_lines.append(f'KNOWN-FINDING: property={prop} {key}: {what}')
    replay_paths = []
    best = {}
    for f in failures:
        b = best.get(f['facet'])
        if b is None or (len(f['choices']), f['choices']) < (len(b['choices']), b['choices']):
            best[f['facet']] = f
    rdir = os.path.join(HERE, 'evidence', 'replay')
    for facet, f in best.items():
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{facet}.json')
        with open(path, 'w', encoding='utf-8') as fh:
            json.dump(dict(property=prop, facet=facet, seed=seed, tier=tier, choices=f['choices'], message=f['message'],
                           case=f['sample'], reproducible=f['reproducible'], original_message=f['original_message']), fh, indent=1, ensure_ascii=True)
        replay_paths.append((facet, path, f))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=sum(f['evaluations'] for f in facets.values()), distinct_nontrivial=total,
                      rule=mod.RULE, samples=samples[:12], facets=facets,
                      known_findings_reproduced=len(known_lines)),
        assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(best))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=True)
    for line in known_lines:
        print(line)
    for facet, path, f in replay_paths:
        print(f'--- {prop} facet={facet} (shrunk case, {len(f["choices"])} choices)')
        if f['sample']:
            print(f['sample'].encode('utf-8', 'backslashreplace').decode())
        print(f['message'].encode('utf-8', 'backslashreplace').decode())
        print(f'VIOLATION property={prop} replay={path}')
    print(f'{prop} {tier}: {evidence["coverage"]["evaluations"]} cases, {total} distinct non-trivial, '
          f'{len(best)} violation(s), {evidence["wall_s"]} s')
    if best:
        return 1
    if bad:
        print(f'harness error: workers died {bad}', file=sys.stderr)
        return 2
    return 0


def replay(path):
    d = json.load(open(path, encoding='utf-8'))
    logging.disable(logging.CRITICAL)
    from vf import engine
    signal.signal(signal.SIGVTALRM, engine._on_alarm)
    tmp = tempfile.mkdtemp(prefix='vf-')
    os.environ['TMPDIR'] = tmp
    tempfile.tempdir = tmp
    try:
        mod = load(d['property'])
        o = engine.execute(mod.FACETS[d['facet']]['fn'], None, d['choices'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(o.g.sample if isinstance(o.g.sample, str) else repr(o.g.sample))
    if o.ok:
        print('no violation')
        return 0
    print(o.msg)
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1


if __name__ == '__main__':
    code = 2
    try:
        code = main()
    except SystemExit as e:
        print(e, file=sys.stderr)
        code = 2
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
