#!/usr/bin/env python3
"""Development tool: run the checks against the planted bugs (in scratch copies).

  sweep.py [--all-props] [--tier T] [id ...]
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/sweep_scratch'


def main():
    a = sys.argv[1:]
    allp = '--all-props' in a
    a = [x for x in a if x != '--all-props']
    tier = 'quick'
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    ids = a or sorted(os.listdir(HERE + '/seeded'))
    props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
    man = json.load(open(HERE + '/MANIFEST.json'))
    claimed = [c['property'] for c in man['checks']]
    for b in ids:
        d = HERE + '/seeded/' + b
        m = json.load(open(d + '/meta.json'))
        s = S + '_' + b
        shutil.rmtree(s, ignore_errors=True)
        subprocess.run('cp -a /repo %s && cd %s && git apply %s/patch.diff' % (s, s, d), shell=True, check=True)
        res = {}
        for p in (claimed if allp else [m['property']]):
            r = subprocess.run([sys.executable, HERE + '/run.py', '--property', p, '--tier', tier, '-q'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=s, VERIF_NOEVIDENCE='1'))
            res[p] = (r.returncode, r.stdout)
        shutil.rmtree(s, ignore_errors=True)
        t = res[m['property']]
        print('%-28s %s %s  also: %s' % (b, m['property'], {1: 'CAUGHT', 0: 'MISSED'}.get(t[0], 'ERR'),
                                         ' '.join(p for p in res if res[p][0] == 1 and p != m['property'])), flush=True)
        if t[0] not in (0, 1):
            print(t[1][-800:])
        if '-v' in os.environ.get('SWEEP', ''):
            print(t[1][-1500:])


main()
