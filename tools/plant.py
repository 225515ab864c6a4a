#!/usr/bin/env python3
"""Confirms planted bugs and tells which checks catch them.

plant.py [--check] ID...: applies seeded/ID/patch.diff to /repo, builds, runs
the tests and the demo, with --check the property's quick check as well
(--checks C01,C02 for others), and undoes the change.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def demo(d):
    return sh('. /opt/vp/env.sh 2>/dev/null; bash %s/demo.sh' % d, cwd='/repo').returncode


def one(i, checks):
    d = os.path.join(ROOT, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    r = {'id': i}
    r['demo0'] = demo(d)
    if sh('git -C /repo apply %s/patch.diff' % d).returncode:
        r['error'] = 'does not apply'
        return r
    try:
        sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        r['tests'] = '%d/%d' % (len(t['passed']), len(t['failed']))
        r['demo1'] = demo(d)
        if checks is not None:
            for c in checks or [meta['property']]:
                p = sh('python3 check.py %s quick' % c, cwd=ROOT)
                r[c] = {0: 'missed', 1: 'CAUGHT'}.get(p.returncode, 'rc%d' % p.returncode)
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    r['good'] = r['demo0'] == 0 and r['demo1'] != 0 and t['failed'] == []
    return r


def main():
    args = sys.argv[1:]
    checks = None
    ids = []
    while args:
        a = args.pop(0)
        if a == '--check':
            checks = []
        elif a == '--checks':
            checks = args.pop(0).split(',')
        else:
            ids.append(a)
    for i in ids or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        print(one(i, checks), flush=True)


main()
