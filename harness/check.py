"""check.py PROPERTY        run one property's check (VERIF_TIER, VERIF_SEED)
check.py --replay FILE     run one recorded violation again"""
from __future__ import annotations
import collections
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

ROOT = run.ROOT
FINDINGS = os.path.join(ROOT, 'known_findings.jsonl')


def canon(x):
    return json.dumps(x, sort_keys=True)


def signature(case, op):
    """What identifies a failing input: schemas, configuration and history up to the failing call."""
    key = {k: case[k] for k in ('heap', 'schemas', 'cfg')}
    key['ops'] = case['ops'][:op] if op else case['ops'][:1]
    return hashlib.sha256(canon(key).encode()).hexdigest()[:16]


def findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def describe(case, m):
    op = case['ops'][m['op'] - 1] if m['op'] else None
    out = case['outs'][m['op'] - 1] if m['op'] and m['op'] <= len(case['outs']) else None
    return canon({'what': m['what'], 'schema': [s['v'] for s in case['schemas']], 'op': op, 'got': out,
                  'build': case.get('buildm')})[:1500]


def replay_text(case, m):
    """Ask TLC for the expected outcome of one case."""
    tmp = tempfile.mkdtemp(prefix='verif-r-')
    try:
        mm, _ = run.judge([case], tmp, module=case.get('module', 'Trace'), verbose=True)
        return '\n'.join(x.get('text', '') for x in mm)[-6000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if pid == '--replay':
        run.build()
        d = json.load(open(sys.argv[2]))
        r = run.explore([d['case']])
        print(canon(r['recs'][1]['outs'])[:4000])
        for m in r['mism']:
            print(m, replay_text(r['recs'][1], m))
        sys.exit(1 if r['mism'] else 0)
    import props
    t0 = time.time()
    spec = props.PROPS[pid]
    run.build()
    tb = time.time()
    res = None
    viol = []
    known = findings(pid)
    hit = {}
    stats = collections.Counter()
    kinds = collections.Counter()
    samples = []
    rng = random.Random('%s-%d' % (pid, seed))
    rounds = spec.get('rounds', {}).get(tier, 1)
    budget = 480 if tier == 'quick' else 3000
    extra_cov = {}
    outcomes = set()
    for part in spec.get('models', ()):
        r = part(tier, seed)
        stats['states'] += r['states']
        stats['transitions'] += r.get('transitions', r['states'])
        stats['traces'] += r.get('traces', 0)
        extra_cov.update(r.get('cov', {}))
        for v in r.get('viol', ()):
            viol.append(v)
        samples += r.get('samples', [])[:2]
    for rnd in range(rounds):
        if 'gen' not in spec or viol or time.time() - t0 > budget:
            break
        cases = []
        for make, module in spec.get('menus', ()):
            h = run.histories(make(rng, tier), module)
            stats['states'] += h['states']
            stats['menus'] += h['menus']
            stats['histories'] += len(h['cases'])
            stats['model_states'] += h['states']
            for m, hist in h['unsound']:
                viol.append({'what': 'the specification does not have the property', 'menu': m, 'history': hist})
            cases += h['cases']
        cases += spec['gen'](rng, tier)
        r = run.explore(cases)
        recs = r['recs']
        stats['states'] += r['states']
        stats['traces'] += len(recs)
        for rec in recs.values():
            for op, o in zip(rec['ops'], rec['outs']):
                stats['transitions'] += 1
                kinds[o['k']] += 1
                if o['k'] == 'errs':
                    for e in o['errs']:
                        outcomes.add(e['ty'])
        stats['build_' + 'ok'] += sum(1 for x in recs.values() if x['build'] == 'ok')
        if len(samples) < 4:
            for rec in rng.sample(list(recs.values()), min(2, len(recs))):
                samples.append({'schemas': rec['schemas'], 'ops': rec['ops'][:2], 'outs': rec['outs'][:2]})
        seen = set()
        for m in r['mism']:
            k = (m['id'], m['op'])
            if k in seen:
                continue
            seen.add(k)
            rec = recs[m['id']]
            sig = signature(rec, m['op'])
            f = [x for x in known if x['signature'] == sig]
            if f:
                hit[f[0]['id']] = f[0]
                continue
            viol.append({'rec': rec, 'm': m, 'sig': sig})
    for f in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    cov = {'states': stats['states'], 'transitions': stats['transitions'],
           'traces_validated_against_impl': stats['traces'], 'outcomes': dict(kinds),
           'error_types_seen': len(outcomes), 'samples': samples[:4], 'build_wall_s': round(tb - t0, 1),
           'violations': len(viol), **extra_cov}
    if stats['menus']:
        cov['histories_enumerated_by_tlc'] = {'menus': stats['menus'], 'histories': stats['histories'], 'states': stats['model_states']}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as g:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                   'wall_s': round(time.time() - t0, 2)}, g, indent=1)
    if viol:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        shown = 0
        for v in viol:
            if shown >= 5:
                break
            shown += 1
            path = os.path.join(ROOT, 'replays', '%s-%d.json' % (pid, shown))
            if 'rec' in v:
                c = dict(v['rec'])
                text = replay_text(c, v['m']) if shown <= 2 else ''
                if v['m']['op']:
                    c['ops'] = c['ops'][:v['m']['op']]
                    c['outs'] = c['outs'][:v['m']['op']]
                c['id'] = 1
                json.dump({'property': pid, 'signature': v['sig'], 'what': v['m'], 'case': c, 'tlc': text},
                          open(path, 'w'), indent=1)
                print(describe(v['rec'], v['m']))
            else:
                json.dump(v, open(path, 'w'), indent=1)
                print(canon(v)[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        print('%d violations in total' % len(viol))
        sys.exit(1)
    print('%s ok: %d cases, %d steps, %d states, %.1fs (build %.1fs)' % (
        pid, stats['traces'], stats['transitions'], stats['states'], time.time() - t0, tb - t0))


if __name__ == '__main__':
    main()
