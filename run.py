#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its source.

  run.py --property C01 [--tier quick|thorough]
  run.py --all
"""
import argparse
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

from sa import registry  # noqa: E402
from sa.explore import AnchorGone, Explorer  # noqa: E402
from sa.interp import Interp, PyExc  # noqa: E402
from sa.strs import Unsupported  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
G = {}


class OutOfTime(BaseException):
    pass


def ring(*_):
    raise OutOfTime()


def work(job):
    i, rev = job
    t = G['tasks'][i]
    left = G['end'] - time.time()
    if left < 1:
        return {'task': t.name, 'rev': rev, 'phases': [], 'verdict': 'out of time', 'anchors': []}
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, left)
    try:
        return task(job)
    except OutOfTime:
        return {'task': t.name, 'rev': rev, 'phases': [], 'verdict': 'out of time', 'anchors': []}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def task(job):
    i, rev = job
    t = G['tasks'][i]
    tier = G['tier']
    k = 4 if tier == 'thorough' else 1
    out = {'task': t.name, 'rev': rev, 'phases': [], 'verdict': 'open', 'anchors': []}
    ex = Explorer(G['I'], tier)
    try:
        for ph in t.phases:
            r = ex.run(t.name, t.fn, ph, max_paths=t.paths * k,
                       max_s=(t.sym_s if ph == 'sym' else t.pin_s) * k, rev=rev,
                       stubs=dict(t.stubs) if t.stubs else None)
            out['phases'].append({
                'phase': ph, 'paths': r.paths, 'infeasible': r.dead,
                'subsumed_at_loop_heads': r.cuts, 'complete': r.done,
                'obligations': {o: {'true': v[0], 'false': v[1], 'open': v[2]} for o, v in sorted(r.obs.items())},
                'open_reasons': sorted(set(r.open))[:12],
                'branch_sites': len(r.forks), 'functions': sorted(r.funcs),
                'violations': r.violations, 'wall_s': round(r.wall, 2)})
            if r.violations:
                out['verdict'] = 'refuted'
                break
            if r.proved():
                out['verdict'] = 'proved (all sizes)' if ph == 'sym' else 'held on the size partition'
                break
            if not r.obs and not r.open and r.done:
                out['verdict'] = 'vacuous'
    except AnchorGone as e:
        out['verdict'] = 'anchor'
        out['error'] = str(e)
    except Exception:
        out['verdict'] = 'crash'
        out['error'] = traceback.format_exc()
    out['anchors'] = sorted(ex.anchors)
    return out


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('finding: '):
                    out.append(line[9:].strip())
    return out


def check(pid, tier, quiet=False):
    t0 = time.time()
    tasks = [t for t in registry.load()[pid] if t.tier == 'quick' or tier == 'thorough']
    I = Interp(os.path.join(REPO, 'src'))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'violations': 0, 'wall_s': 0.0,
          'assumptions': ['models of the Python builtins and of the standard library in sa/models.py',
                          'hashlib.md5 and hash() are treated as collision free',
                          'the abstract inputs are those of the shapes listed under coverage.tasks']}
    loaderr = None
    try:
        I.load_all()
    except (Unsupported, PyExc, SyntaxError, RecursionError) as e:
        loaderr = repr(e)
        if isinstance(e, (SyntaxError, PyExc)):
            print('ERROR the package cannot be loaded: %s' % (e,))
            return 2
    for e in I.load_errors:
        print('NOT MODELLED %s' % e)
    results = []
    if loaderr is None:
        G.update(I=I, tasks=tasks, tier=tier, end=t0 + (600 if tier != 'thorough' else 6000))
        jobs = [(i, rev) for i, t in enumerate(tasks) for rev in t.rev]
        n = min(len(jobs), int(os.environ.get('VERIF_JOBS', '8')))
        if n > 1:
            with multiprocessing.get_context('fork').Pool(n) as p:
                results = p.map(work, jobs, chunksize=1)
        else:
            results = [work(j) for j in jobs]
    funcs, obl, dis, opn = set(), 0, 0, 0
    bad, broken = [], []
    for r in results:
        if r['verdict'] in ('anchor', 'crash', 'vacuous'):
            broken.append(r)
        last = r['phases'][-1] if r['phases'] else None
        if last:
            for o, v in last['obligations'].items():
                obl += 1
                if v['false'] == 0 and v['open'] == 0:
                    dis += 1
        for ph in r['phases']:
            funcs.update(ph['functions'])
            for v in ph['violations']:
                bad.append((r['task'], v))
    verd = {}
    for r in results:
        verd[r['verdict']] = verd.get(r['verdict'], 0) + 1
    ev['coverage'] = {
        'explanation': 'Path-sensitive abstract interpretation of the syntax trees of %s/src/os_urlpattern '
                       '(no code of the repository is executed): every obligation below is evaluated on every '
                       'abstract path of every task; see DESIGN.md.' % REPO,
        'modules_analysed': len([m for m in I.modules if m.startswith('os_urlpattern')]),
        'functions_analysed': sorted(funcs), 'obligations': obl, 'discharged': dis,
        'tasks': len(results), 'task_verdicts': verd, 'load_error': loaderr,
        'not_modelled_while_loading': I.load_errors,
        'rule': 'an obligation is discharged when it is true on every abstract path; it is violated when it is '
                'false on a path that no join or uninterpreted equality made imprecise',
        'samples': [{'task': r['task'], 'verdict': r['verdict'], 'phases': [
            {k: v for k, v in ph.items() if k not in ('functions', 'violations')} for ph in r['phases']]}
            for r in results]}
    ev['violations'] = len(bad)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    if not os.environ.get('VERIF_NOEVIDENCE'):
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
    known = known_findings()
    reported = False
    replay = os.path.join(HERE, 'evidence', pid + '.replay.json')
    fresh = []
    for task, v in bad:
        key = 'property=%s task=%s obligation=%s' % (pid, task, v['obligation'])
        if any(k.startswith(key) for k in known):
            print('KNOWN-FINDING: ' + key)
        else:
            fresh.append((task, v))
    for r in results:
        if not quiet:
            last = r['phases'][-1] if r['phases'] else {}
            print('%s %-45s %s%s paths=%s %.1fs' % (
                pid, r['task'] + (' (reversed set order)' if r['rev'] else ''), r['verdict'],
                ' ' + '; '.join(last.get('open_reasons', [])[:3]) if r['verdict'] == 'open' else '',
                [ph['paths'] for ph in r['phases']], sum(ph['wall_s'] for ph in r['phases'])))
    if fresh:
        with open(replay, 'w') as f:
            json.dump([dict(v, task=t) for t, v in fresh], f, indent=1)
            f.write('\n')
        for t, v in fresh[:5]:
            print('  task: %s\n  rule: %s\n  inputs: %s\n  shape: %s\n  %s\n  functions: %s\n  path: %s' % (
                t, v['obligation'], v['inputs'], v['shape'], v['detail'],
                ', '.join(x.split('.', 1)[-1] for x in v['functions'][:12]), ' | '.join(v['path'][-8:])))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if loaderr:
        print('ERROR analysis broken: %s' % loaderr)
        return 2
    for r in broken:
        print('NOT ANALYSED task %r: %s %s' % (r['task'], r['verdict'], r.get('error', '')))
    if len(broken) == len(results):
        print('ERROR analysis broken: no task of %s could be analysed' % pid)
        return 2
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--property')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--all', action='store_true')
    a.add_argument('-q', action='store_true')
    o = a.parse_args()
    if o.all:
        rc = 0
        for pid in sorted(registry.load()):
            t = time.time()
            r = check(pid, o.tier, o.q)
            print('%s exit %d %.1fs' % (pid, r, time.time() - t), flush=True)
            rc = max(rc, r)
        return rc
    return check(o.property, o.tier, o.q)


if __name__ == '__main__':
    sys.exit(main())
