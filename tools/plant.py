#!/usr/bin/env python3
"""Development tool: confirm planted bugs in a scratch copy and store them under seeded/.

  plant.py FILE.py [id ...]     FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
A bug is kept when it applies, the 29 stable tests pass with it, and demo passes without and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/plant_scratch'


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(cwd):
    env = dict(os.environ, PYTHONPATH=cwd + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', COVERAGE_FILE=cwd + '/.cov_plant',
               PATH='/opt/venv/bin:' + os.environ['PATH'])
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = subprocess.run('python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -15', shell=True, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, text=True)
    return '29 passed' in r.stdout and 'failed' not in r.stdout, r.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only:
            continue
        out = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(S, ignore_errors=True)
        sh('git -C /repo worktree prune; cp -a /repo ' + S, '/')
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(S, 'src/os_urlpattern', f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b['id'], 'NOT UNIQUE (%d) in %s: %r' % (t.count(old), f, old[:60]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        good, log = tests(S)
        if not good:
            print(b['id'], 'TESTS FAIL', [x[:70] for x in log.splitlines() if x.startswith('FAILED')])
            continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        with open(out + '/demo.py', 'w') as f:
            f.write(b['demo'].strip('\n') + '\n')
        with open(out + '/demo.sh', 'w') as f:
            f.write('#!/bin/sh\n# run with cwd at the repository\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
                    'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec python3 "$HERE/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        a = sh('bash %s/demo.sh' % out, '/repo')
        z = sh('bash %s/demo.sh' % out, S)
        if a.returncode != 0 or z.returncode == 0:
            print(b['id'], 'DEMO BAD clean=%d patched=%d' % (a.returncode, z.returncode), (a.stdout + z.stdout)[-500:])
            shutil.rmtree(out)
            continue
        d = sh('git diff', S).stdout
        with open(out + '/patch.diff', 'w') as f:
            f.write(d)
        with open(out + '/meta.json', 'w') as f:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
            f.write('\n')
        print(b['id'], 'planted', z.stdout.strip().splitlines()[-1:] )
    shutil.rmtree(S, ignore_errors=True)


main()
