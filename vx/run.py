"""Check driver: runs a property's harnesses, writes evidence, reports."""
import glob
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback
import logging

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Task:
    """One harness configuration.  weight: share of the time limit."""

    def __init__(self, name, fn, cfg=None, limit=None, max_paths=10 ** 6,
                 validate=40, search=60):
        self.name, self.fn, self.cfg = name, fn, cfg or {}
        self.limit = limit
        self.max_paths, self.validate = max_paths, validate
        self.search = search


def known_labels(pid):
    """Labels of recorded findings: lines
    'known: property=<id> task=<task> label=<label> :: text'."""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith('known: property=%s ' % pid):
                continue
            head, _, text = line.partition(' :: ')
            task = head.split(' task=')[1].split(' label=')[0]
            label = head.split(' label=')[1]
            out[(task, label)] = text
    return out


def _worker(mod, tier, idx, limit, hard, conn):
    os.setsid() if hasattr(os, 'setsid') and False else None
    logging.disable(logging.CRITICAL)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    res = {}
    try:
        h = importlib.import_module(mod)
        t = h.tasks(tier)[idx]
        if hasattr(t, 'custom'):
            res = t.custom(limit)
            conn.send(res)
            return
        from . import world
        pid = h.ID
        known = [l for (tn, l) in known_labels(pid) if tn in (t.name, '*')]
        t0 = time.time()
        r = world.Runner(t.fn, t.cfg, t0 + limit, known, t.max_paths,
                         t.validate, t.search,
                         int(os.environ.get('VERIF_SEED', '1')))
        if getattr(h, 'NATIVE', False):
            os.dup2(devnull, 2)          # crash reports of a signal handler
            r.breadcrumb = _crumb(idx)
        r.run()
        s = r.eng.stats
        res = dict(
            name=t.name, cfg={k: str(v) for k, v in t.cfg.items()},
            exhausted=bool(r.exhausted), paths=s.paths, cut=s.cut,
            branches=s.branches, queries=s.queries,
            solver_s=round(s.solver_s, 3), checks=s.checks,
            trivial=s.trivial, labels=sorted(r.labels),
            unknown_feas=s.unknown, unknown=r.unknown,
            unconfirmed=r.unconf, unsupported=r.unsupported,
            validated=r.validated, replayed=r.replayed,
            concolic=r.concolic, mismatch=r.mismatch[:5],
            n_mismatch=len(r.mismatch), violations=r.violations,
            known=r.known_hit, samples=r.samples, funcs=sorted(r.funcs),
            wall=round(time.time() - t0, 2),
            tb=getattr(r, 'exc_tb', None) if r.violations else None,
            utb=''.join(traceback.format_exception(r.unsup_exc))[-3000:]
            if getattr(r, 'unsup_exc', None) is not None else None)
    except BaseException as ex:
        res = dict(name=str(idx), error=''.join(
            traceback.format_exception(ex))[-4000:])
    try:
        conn.send(res)
    except Exception as ex:
        conn.send(dict(name=str(idx), error='unsendable %r' % ex))
    conn.close()


def _crumb(idx):
    from . import native
    return os.path.join(native.scratch(), 'env-%d.pkl' % idx)


def _died(mod, tier, idx, code):
    """A worker killed by a signal while the real compiled code ran: a
    violation when the same inputs kill a fresh process again."""
    h = importlib.import_module(mod)
    res = dict(name=str(idx), error='worker died (%s)' % code)
    p = _crumb(idx) if getattr(h, 'NATIVE', False) else None
    if code is None or code >= 0 or code == -9 or not p or \
            not os.path.exists(p):
        return res
    with open(p, 'rb') as f:
        env, st = pickle.load(f)
    rnd = None
    if st is not None:
        rnd = random.Random()
        rnd.setstate(st)
    t = h.tasks(tier)[idx]
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            for s in (6, 7, 8, 11):
                signal.signal(s, signal.SIG_DFL)
            from . import world
            world.Runner(t.fn, t.cfg, time.time() + 60).concrete(env, rnd)
        finally:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    if not os.WIFSIGNALED(st) or os.WTERMSIG(st) == 9:
        return res
    from . import world
    res['violations'] = [dict(
        label='the process survives', detail='killed by signal %d'
        % os.WTERMSIG(st), env=world._env(env or {}))]
    return res


def run_tasks(mod, tier, idxs, limit_of, jobs, wall):
    ctx = mp.get_context('fork')
    pend = list(idxs)
    live = {}
    out = {}
    end = time.time() + wall
    while pend or live:
        while pend and len(live) < jobs:
            i = pend.pop(0)
            lim = limit_of(i)
            left = end - time.time()
            if left < 5:
                out[i] = dict(name=str(i), skipped=True)
                continue
            lim = min(lim, left - 2)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker,
                            args=(mod, tier, i, lim, lim + 60, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), lim)
        time.sleep(.01)
        for i, (p, a, t0, lim) in list(live.items()):
            if a.poll():
                try:
                    out[i] = a.recv()
                except EOFError:
                    p.join(5)
                    out[i] = _died(mod, tier, i, p.exitcode)
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[i]
            elif not p.is_alive():
                out[i] = _died(mod, tier, i, p.exitcode)
                del live[i]
            elif time.time() - t0 > lim + 60:
                p.kill()
                p.join()
                out[i] = dict(name=str(i), timeout=True)
                del live[i]
    return out


def main(argv):
    pid = argv[0]
    thorough = '--thorough' in argv
    verbose = '-v' in argv
    only = [a for a in argv[1:] if not a.startswith('-')]
    tier = 'thorough' if thorough else 'quick'
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = 'harness.' + pid.lower()
    # heavy imports before forking
    import numpy  # noqa
    import sklearn.linear_model, sklearn.preprocessing  # noqa
    import sklearn.cluster, sklearn.decomposition  # noqa
    import scipy.optimize  # noqa
    from . import core, arr, load, npx, skx, world  # noqa
    npx.libmodels()
    h = importlib.import_module(mod)
    if hasattr(h, 'prepare'):
        h.prepare()
    tasks = h.tasks(tier)
    idxs = [i for i, t in enumerate(tasks)
            if not only or any(o in t.name for o in only)]
    dflt = 60 if tier == 'quick' else 500
    wall = 400 if tier == 'quick' else 820
    jobs = int(os.environ.get('VX_JOBS', '8'))
    out = run_tasks(mod, tier, idxs,
                    lambda i: tasks[i].limit or dflt, jobs, wall)
    known = known_labels(pid)
    rc = 0
    rep_dir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, pid + '-*.json')):
        os.unlink(f)
    nviol = 0
    khit = {}
    for i in idxs:
        o = out[i]
        o['name'] = tasks[i].name
        for v in o.get('violations', []):
            nviol += 1
            p = os.path.join(rep_dir, '%s-%d.json' % (pid, nviol))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, module=mod, tier=tier,
                               task=tasks[i].name, **v), f, indent=1,
                          default=str)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  task %s: %s (%s)' % (tasks[i].name, v['label'],
                                          str(v.get('detail'))[:300]))
            rc = 1
        for l in o.get('known', {}):
            text = known.get((tasks[i].name, l)) or known.get(('*', l), l)
            khit.setdefault(text, 0)
            khit[text] += 1
    for text in khit:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    evidence(pid, h, tier, tasks, idxs, out, t0, nviol, khit)
    if verbose or os.environ.get('VX_VERBOSE'):
        for i in idxs:
            o = out[i]
            if 'error' in o:
                print('  %s ERROR %s' % (o['name'], o['error']))
                continue
            if 'paths' not in o:
                print('  ', o)
                continue
            print('  %-34s %s paths=%d cut=%d q=%d checks=%d/%d '
                  'val=%d/%d solver=%.1f wall=%.1f%s%s%s%s' % (
                      o['name'], 'full' if o['exhausted'] else 'PART',
                      o['paths'], o['cut'], o['queries'],
                      o['checks'] - o['trivial'], o['checks'],
                      o['validated'], o['replayed'], o['solver_s'],
                      o['wall'],
                      ' UNSUP %s' % o['unsupported'] if o['unsupported']
                      else '',
                      ' UNK %s' % o['unknown'] if o['unknown'] else '',
                      ' UNCONF %s' % o['unconfirmed'] if o['unconfirmed']
                      else '',
                      ' MISM%d %s' % (o['n_mismatch'], o['mismatch'])
                      if o['mismatch'] else ''))
            if o.get('utb') and '-t' in argv:
                print(o['utb'])
            if o.get('tb') and '-t' in argv:
                print(o['tb'])
        print('wall %.1fs' % (time.time() - t0))
    bad = [o for o in out.values() if 'error' in o]
    if bad and rc == 0:
        for o in bad[:3]:
            print('note: task %s could not be run: %s'
                  % (o['name'], o['error'].strip().splitlines()[-1][:200]))
    print('%s %s: %d tasks, %d paths, %d queries, %.1fs: %s' % (
        pid, tier, len(idxs), sum(o.get('paths', 0) for o in out.values()),
        sum(o.get('queries', 0) for o in out.values()), time.time() - t0,
        'violated' if rc else 'held'))
    return rc


def evidence(pid, h, tier, tasks, idxs, out, t0, nviol, khit):
    def tot(k):
        return sum(o.get(k, 0) for o in out.values())
    funcs = sorted(set(f for o in out.values() for f in o.get('funcs', [])))
    samples = []
    for i in idxs:
        for s in out[i].get('samples', [])[:2]:
            samples.append(dict(task=tasks[i].name, **s))
    inconc = {}
    for i in idxs:
        o = out[i]
        d = {}
        for k in ('unknown', 'unconfirmed', 'unsupported', 'mismatch',
                  'error', 'timeout', 'skipped'):
            if o.get(k):
                d[k] = o[k]
        if 'exhausted' in o and not o['exhausted']:
            d['not_exhausted'] = True
        if d:
            inconc[tasks[i].name] = d
    ev = dict(
        property=pid, tier=tier, level='model_checking',
        method='symbolic execution of the sources under /repo/src with z3',
        result='violated' if nviol else 'held',
        coverage=dict(
            states=max(1, tot('branches') + tot('paths')),
            transitions=max(1, tot('branches')),
            traces_validated_against_impl=tot('validated'),
            samples=samples[:12] or [dict(note='none')],
            paths=tot('paths'), infeasible_paths=tot('cut'),
            tasks=len(idxs),
            tasks_exhausted=sum(1 for o in out.values()
                                if o.get('exhausted')),
            functions_encoded=funcs,
            bounds=getattr(h, 'BOUNDS', ''),
            outside=getattr(h, 'OUTSIDE', ''),
            assertions=tot('checks'), assertions_by_rewriting=tot('trivial'),
            queries=tot('queries'), solver_seconds=round(
                tot('solver_s'), 2),
            concrete_replays=tot('replayed'),
            known_findings=list(khit),
            inconclusive=inconc,
            per_task=[{k: out[i].get(k) for k in (
                'name', 'exhausted', 'paths', 'queries', 'solver_s',
                'wall')} for i in idxs]),
        violations=nviol, wall_s=round(time.time() - t0, 1),
        seed=int(os.environ.get('VERIF_SEED', '1')),
        finished_at=time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime()))
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


def replay(path):
    sys.path.insert(0, ROOT)
    d = json.load(open(path))
    h = importlib.import_module(d['module'])
    from . import world
    for t in h.tasks(d['tier']):
        if t.name == d['task']:
            if hasattr(t, 'replay'):
                return t.replay(d)
            r = world.Runner(t.fn, t.cfg, None)
            st, w, f = r.concrete(d['env'])
            print(json.dumps(d, indent=1))
            print('replay on the real code:', st, f,
                  getattr(f, 'detail', ''))
            if st == 'exc':
                traceback.print_exception(f)
            return 1 if st in ('fail', 'exc') else 0
    print('task not found')
    return 2


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1:]))
