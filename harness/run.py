"""Shared machinery of the checks: build, drive, let TLC judge, report."""
from __future__ import annotations
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/vp/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
TLACP = ':'.join([JAR] + [os.path.join('/opt/veriftools/tla', f) for f in sorted(os.listdir('/opt/veriftools/tla'))
                          if f.endswith('.jar') and f != 'tla2tools.jar'])
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


def env():
    e = dict(os.environ)
    e.update(PTODAY=time.strftime('%Y%m%d', time.gmtime()), PYTHONHASHSEED='0', RUST_BACKTRACE='0', PYTHONDONTWRITEBYTECODE='1', TZ='UTC', LC_ALL='C.UTF-8')
    e.pop('PYTHONPATH', None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ('src', 'python', 'build.rs', 'Cargo.toml', 'Cargo.lock', '.cargo', 'generate_self_schema.py',
                'pyproject.toml'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        for d, dirs, fs in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if f.endswith(('.so', '.pyc')) or f.endswith('src/self_schema.py'):
            continue
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def build():
    """(Re)build the extension module from /repo's working tree."""
    stamp = os.path.join(REPO, 'target', 'debug', '.verif-stamp')
    want = tree_hash()
    so = [f for f in os.listdir(os.path.join(REPO, 'python/pydantic_core')) if f.endswith('.so')]
    sohash = ''
    if so:
        st = os.stat(os.path.join(REPO, 'python/pydantic_core', so[0]))
        sohash = '%d-%d' % (st.st_size, st.st_mtime_ns)
    if so and os.path.exists(stamp) and open(stamp).read() == want + ' ' + sohash:
        return
    # cargo trusts file times, which copies do not keep: force the crate itself to be compiled
    cmd = ('. /opt/vp/env.sh; cd /repo && rm -rf target/debug/.fingerprint/pydantic-core-* '
           '&& rm -f python/pydantic_core/*.so && maturin develop --skip-install --offline')
    p = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    so = [f for f in os.listdir(os.path.join(REPO, 'python/pydantic_core')) if f.endswith('.so')]
    if p.returncode or not so:
        print(p.stdout[-3000:])
        raise SystemExit('build failed')
    st = os.stat(os.path.join(REPO, 'python/pydantic_core', so[0]))
    with open(stamp, 'w') as f:
        f.write(want + ' ' + '%d-%d' % (st.st_size, st.st_mtime_ns))


def drive(cases_path, out_path, limit=60, driver='driver.py'):
    """Run the driver over a chunk; a crash or hang is recorded as that case's outcome."""
    start, ncases = 0, sum(1 for _ in open(cases_path))
    open(out_path, 'w').close()
    bad = []
    while start < ncases:
        p = subprocess.Popen([PY, os.path.join(ROOT, 'harness', driver), cases_path, out_path, str(start)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), text=True)
        last, t0 = -1, time.time()
        err = ''
        while True:
            try:
                _, err = p.communicate(timeout=5)
                break
            except subprocess.TimeoutExpired:
                size = os.path.getsize(out_path)
                if size != last:
                    last, t0 = size, time.time()
                elif time.time() - t0 > limit:
                    p.kill()
                    _, err = p.communicate()
                    break
        done = sum(1 for _ in open(out_path))
        if p.returncode == 0 and done == ncases:
            break
        lines = open(cases_path).read().splitlines()
        case = json.loads(lines[done])
        why = 'hang' if p.returncode == -9 else 'crash %s' % p.returncode
        if p.returncode == 1 and 'Traceback' in (err or ''):
            # the code returned something the driver cannot write down
            why = 'unreadable result: ' + err.strip().splitlines()[-1][:300]
            sys.stderr.write('driver failed on case %s\n%s\n' % (json.dumps(case)[:2000], err[-2000:]))
        case['build'] = 'ok'
        case['outs'] = [{'k': 'panic', 'm': why, 'log': [], 'mut': []} for _ in case['ops'][:1]]
        bad.append((case['id'], why))
        with open(out_path, 'a') as f:
            f.write(json.dumps(case) + '\n')
        start = done + 1
    return bad


def tlc(workdir, module='Trace', verbose=False, heap='2g', extra=()):
    cfg = os.path.join(workdir, module + '.cfg')
    if verbose:
        s = open(cfg).read().replace('Verbose = FALSE', 'Verbose = TRUE')
        open(cfg, 'w').write(s)
    p = subprocess.run(['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC', '-cp', TLACP, 'tlc2.TLC', '-workers', '1',
                        '-metadir', os.path.join(workdir, 'meta'), '-config', module + '.cfg', *extra, module + '.tla'],
                       cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env())
    return p.stdout


def judge(recs, workdir, module='Trace', verbose=False, depth=0):
    """Let TLC check recorded cases; returns (mismatches, states, error texts)."""
    if not recs:
        return [], 0
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, 'spec')):
        if f.endswith(('.tla', '.cfg', '.json')):
            shutil.copy(os.path.join(ROOT, 'spec', f), workdir)
    with open(os.path.join(workdir, 'cases.ndjson'), 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    out = tlc(workdir, module, verbose)
    mism = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*"([^"]*)"', out):
        mism.append({'id': int(m.group(1)), 'op': int(m.group(2)), 'what': m.group(3)})
    states = 0
    for m in re.finditer(r'([\d,]+) states generated', out):
        states = int(m.group(1).replace(',', ''))
    if 'No error has been found' in out:
        if verbose:
            mism = mism and [dict(mism[0], text=out)]
        return mism, states
    if 'Parsing or semantic' in out or 'states generated' not in out and not re.search(r'/\\ n = ', out):
        sys.stderr.write(out[out.find('***'):][:1200])
        raise SystemExit(3)
    # the specification could not be evaluated on a case: isolate it
    ns = re.findall(r'/\\ n = (\d+)', out)
    i0 = out.find('Error:')
    text = out[i0:i0 + 1500]
    at = int(ns[-1]) - 1 if ns else 0
    if depth > 40:
        return mism + [{'id': recs[at]['id'], 'op': 0, 'what': 'eval', 'text': text}], states
    mism = [m for m in mism]
    mism.append({'id': recs[at]['id'], 'op': 0, 'what': 'eval', 'text': text})
    more, st2 = judge(recs[at + 1:], os.path.join(workdir, 'r'), module, verbose, depth + 1)
    return mism + more, states + st2


def explore(cases, module='Trace', driver='driver.py', scratch=None, procs=None):
    """Drive and judge; returns dict(mismatches, states, ops, recs)."""
    procs = procs or NPROC
    tmp = scratch or tempfile.mkdtemp(prefix='verif-', dir=os.environ.get('TMPDIR', '/tmp'))
    for i, c in enumerate(cases):
        c['id'] = i + 1
    nch = max(1, min(procs, (len(cases) + 49) // 50))
    chunks = [cases[i::nch] for i in range(nch)]

    def one(i):
        d = os.path.join(tmp, 'c%d' % i)
        os.makedirs(d)
        src, dst = os.path.join(d, 'in.ndjson'), os.path.join(d, 'out.ndjson')
        with open(src, 'w') as f:
            for c in chunks[i]:
                f.write(json.dumps(c) + '\n')
        bad = drive(src, dst, driver=driver)
        recs = [json.loads(x) for x in open(dst)]
        mism, states = judge(recs, os.path.join(d, 't'), module)
        return bad, recs, mism, states

    t0 = time.time()
    try:
        with cf.ThreadPoolExecutor(nch) as ex:
            res = list(ex.map(one, range(nch)))
    finally:
        if scratch is None:
            shutil.rmtree(tmp, ignore_errors=True)
    recs = {r['id']: r for x in res for r in x[1]}
    mism = sorted((m for x in res for m in x[2]), key=lambda m: (m['id'], m['op']))
    return {'mism': mism, 'states': sum(x[3] for x in res), 'recs': recs,
            'crash': [b for x in res for b in x[0]], 'wall': time.time() - t0}


def histories(menus, module='Explore', scratch=None):
    """Every history TLC finds for the menus, as cases for the implementation."""
    tmp = scratch or tempfile.mkdtemp(prefix='verif-h-', dir=os.environ.get('TMPDIR', '/tmp'))
    nch = max(1, min(NPROC, len(menus)))
    chunks = [list(range(i, len(menus), nch)) for i in range(nch)]

    def one(i):
        d = os.path.join(tmp, 'h%d' % i)
        os.makedirs(d)
        for f in os.listdir(os.path.join(ROOT, 'spec')):
            if f.endswith(('.tla', '.cfg', '.json')):
                shutil.copy(os.path.join(ROOT, 'spec', f), d)
        with open(os.path.join(d, 'menus.ndjson'), 'w') as f:
            for j in chunks[i]:
                f.write(json.dumps(menus[j]) + '\n')
        out = tlc(d, module, heap='3g')
        if 'No error has been found' not in out:
            return None, out
        hs = collections.defaultdict(set)
        bad = []
        for m in re.finditer(r'<<\s*"(HIST|UNSOUND)",\s*(\d+),\s*<<([\d,\s]*)>>\s*>>', out):
            h = tuple(int(x) for x in m.group(3).split(','))
            j = chunks[i][int(m.group(2)) - 1]
            if m.group(1) == 'UNSOUND':
                bad.append((j, h))
            hs[j].add(h)
        m = re.search(r'([\d,]+) states generated.*?([\d,]+) distinct', out)
        return hs, bad, [int(x.replace(',', '')) for x in m.groups()]

    try:
        with cf.ThreadPoolExecutor(nch) as ex:
            res = list(ex.map(one, range(nch)))
    finally:
        if scratch is None:
            shutil.rmtree(tmp, ignore_errors=True)
    cases, bad, gen, dist = [], [], 0, 0
    for r in res:
        if r[0] is None:
            i0 = r[1].find('Error:')
            sys.stderr.write(r[1][i0:i0 + 3000])
            raise SystemExit(3)
        bad += r[1]
        gen += r[2][0]
        dist += r[2][1]
        for j, hs in r[0].items():
            skel = {k: v for k, v in menus[j].items() if k not in ('menu', 'depth', 'graph', 'atomic', 'lazy')}
            if module == 'Weave':
                # every schedule in one case: the calls leave nothing behind
                a, b = menus[j]['menu']
                c = json.loads(json.dumps(skel))
                c['ops'] = [json.loads(json.dumps({'op': 'both', 's': 1, 'a': a, 'b': b, 'sched': [x - 1 for x in h]})) for h in sorted(hs)]
                cases.append(c)
                continue
            # a history that another one starts with adds nothing
            pre = {h[:k] for h in hs for k in range(1, len(h))}
            for h in sorted(hs - pre):
                c = json.loads(json.dumps(skel))
                c['ops'] = [json.loads(json.dumps(menus[j]['menu'][k - 1])) for k in h]
                cases.append(c)
    return {'cases': cases, 'unsound': [(menus[j], h) for j, h in bad], 'states': dist, 'transitions': gen, 'menus': len(menus)}
