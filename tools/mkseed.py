#!/usr/bin/env python3
"""mkseed.py DEF.py [-f]: build and confirm planted changes.

DEF.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], demo=<python source>)].  Each one is applied to a scratch copy of /repo;
it is kept as /verif/seeded/<id>/ only if it changes original lines, the stable
tests pass and the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = '4426748'
PY = '/opt/venv/bin/python'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def env(repo):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
             OMPI_MCA_btl='self', OMPI_MCA_pml='ob1',
             PYTHONPATH=repo + '/src:/opt/vp/plugins')
    return e


def build(repo):
    return sh('rm -rf build/temp.*; %s setup.py build_ext --inplace --force' % PY, cwd=repo,
              env=env(repo))


def tests(repo):
    out = repo + '/../junit.xml'
    sh('%s -m pytest -q -p no:cacheprovider -p vp_seed -n 8 --timeout=300 '
       '--continue-on-collection-errors --disable-warnings '
       '-o junit_family=xunit2 --junitxml=%s tests' % (PY, out), cwd=repo,
       env=env(repo))
    sh('python3 /opt/vp/results.py %s/../o.json junit:%s' % (repo, out))
    r = json.load(open(repo + '/../o.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return r, base


def passed(d):
    for k in ('passed', 'stable', 'pass', 'tests'):
        if k in d:
            v = d[k]
            if isinstance(v, dict):
                return {t for t, s in v.items() if s in (True, 'passed', 'pass')}
            return set(v)
    raise SystemExit('unknown results format %r' % list(d))


def demo(repo, d):
    t = tempfile.mkdtemp(prefix='demo')
    for f in os.listdir(d):
        if f != 'meta.json' and not f.endswith('.diff'):
            shutil.copy(d + '/' + f, t)
    r = sh('timeout 300 bash %s/demo.sh' % t, cwd=repo, env=env(repo))
    shutil.rmtree(t)
    return r


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    top = tempfile.mkdtemp(prefix='seed')
    repo = top + '/repo'
    sh('cp -a /repo %s' % repo)
    try:
        for s in ns['SEEDS']:
            if only and s['id'] not in only:
                continue
            sh('git checkout -q -- .', cwd=repo)
            d = '/verif/seeded/' + s['id']
            if os.path.isdir(d) and '-f' not in sys.argv:
                print(s['id'], 'exists'); continue
            tmp = top + '/d'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            native = any(f.startswith('liblbfgs') or f.endswith('.pyx') for f, _, _ in s['edits'])
            open(tmp + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
            open(tmp + '/demo.sh', 'w').write(
                '#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
            r = demo(repo, tmp)
            if r.returncode:
                print(s['id'], 'REJECT: demo fails unchanged', (r.stdout + r.stderr)[-800:]); continue
            ok = True
            for f, old, new in s['edits']:
                p = repo + '/' + f
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'REJECT: text occurs', t.count(old), 'times', f); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok:
                continue
            diff = sh('git diff', cwd=repo).stdout
            # removed lines must be original lines
            orig = set()
            for f, _, _ in s['edits']:
                orig |= set(sh('git show %s:%s' % (BASE, f), cwd=repo).stdout.splitlines())
            rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            if not rem or not all(l in orig for l in rem if l.strip()):
                print(s['id'], 'WARNING: changes lines not in the original', [l for l in rem if l not in orig])
            if native:
                b = build(repo)
                if b.returncode:
                    print(s['id'], 'REJECT: does not build', b.stderr[-500:]); continue
            r, base = tests(repo)
            miss = passed(base) - passed(r)
            r2 = demo(repo, tmp)
            if native:
                sh('git checkout -q -- .', cwd=repo); build(repo)
            if miss:
                print(s['id'], 'REJECT: tests fail', sorted(miss)[:5]); continue
            if r2.returncode == 0:
                print(s['id'], 'REJECT: demo passes with the change'); continue
            open(tmp + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=s['property'], needs=s['needs'],
                           what_it_breaks=s['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(s['id'], 'KEPT', (r2.stdout + r2.stderr).strip().splitlines()[-1:][:1])
    finally:
        shutil.rmtree(top)


main()
