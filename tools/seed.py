"""Validate planted bugs in a private mount namespace (scratch copies of /repo and /verif).

seed.py W BUGDIR... [--checks P01,P02|own|none] [--notest] [--demo-only]
W: worker number (its scratch copy is /tmp/sw/W and is reused)
"""
import json
import os
import subprocess
import sys
import time

BASE = '/tmp/sw'


def sh(cmd, **kw):
    return subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ns(w, cmd, timeout=2400):
    d = '%s/%s' % (BASE, w)
    pre = ('mount --bind %s/repo /repo && mount --bind %s/verif /verif && mount --bind %s/logs /opt/vp/logs && '
           'export TMPDIR=%s/tmp && cd /repo && ' % (d, d, d, d))
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', pre + cmd], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def prepare(w):
    d = '%s/%s' % (BASE, w)
    if not os.path.isdir(d + '/repo'):
        os.makedirs(d, exist_ok=True)
        sh('cp -a /repo %s/repo' % d)
    for s in ('logs', 'tmp'):
        os.makedirs('%s/%s' % (d, s), exist_ok=True)
    sh('rsync -a --delete --exclude .git --exclude evidence --exclude replays /verif/ %s/verif/ || '
       '(mkdir -p %s/verif && cp -a /verif/. %s/verif/)' % (d, d, d))
    os.makedirs(d + '/verif/evidence', exist_ok=True)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('cd %s/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD' % d)
    got = sh('git -C %s/repo rev-parse HEAD' % d).stdout.strip()
    assert got == head, (got, head)


def main():
    args = sys.argv[1:]
    w = args.pop(0)
    checks, test, bugs = 'own', True, []
    while args:
        a = args.pop(0)
        if a == '--checks':
            checks = args.pop(0)
        elif a == '--notest':
            test = False
        else:
            bugs.append(os.path.abspath(a))
    prepare(w)
    d = '%s/%s' % (BASE, w)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in bugs:
        name = os.path.basename(b)
        meta = json.load(open(b + '/meta.json'))
        res = {'bug': name}
        sh('cd %s/repo && git checkout -q -- .' % d)
        rel = '/verif/seeded/' + name
        sh('mkdir -p %s/verif/seeded && cp -a %s %s/verif/seeded/' % (d, b, d))
        p = ns(w, 'git apply %s/patch.diff' % rel)
        if p.returncode:
            print(name, 'PATCH DOES NOT APPLY', p.stdout[-500:])
            continue
        p = ns(w, 'touch src/lib.rs; bash /opt/vp/build.sh') if test else ns(
            w, '. /opt/vp/env.sh; touch src/lib.rs; build_ext')
        if p.returncode:
            print(name, 'BUILD FAILED', p.stdout[-1500:])
            continue
        p = ns(w, '. /opt/vp/env.sh; timeout 300 bash %s/demo.sh' % rel)
        res['demo_bug'] = p.returncode
        res['demo_out'] = p.stdout[-200:]
        if test:
            ns(w, 'bash /opt/vp/test.sh /opt/vp/logs/o.json')
            o = json.load(open(d + '/logs/o.json'))
            lost = sorted(stable - set(o['passed']))
            res['lost'] = len(lost)
            res['lost_names'] = lost[:5]
        if checks != 'none':
            for c in ([meta['property']] if checks == 'own' else checks.split(',')):
                t = time.time()
                p = ns(w, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 harness/check.py %s' % c)
                v = 'VIOLATION property=%s' % c in p.stdout
                res['check_' + c] = 'CAUGHT' if p.returncode == 1 and v else 'missed' if p.returncode == 0 else 'rc%d %s' % (p.returncode, p.stdout[-600:])
                res['t_' + c] = round(time.time() - t)
        sh('cd %s/repo && git checkout -q -- .' % d)
        print(json.dumps(res), flush=True)


if __name__ == '__main__':
    main()
