"""dev.py GEN-EXPR [seed]: development aid: run a generator and summarise mismatches."""
import re, sys, random, json, collections
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import run
from gen_nested import *
import importlib
from gen_props import *
from gen_ser import *
from gen_rt import *
from gen_lazy import *
from gen_inter import *
from gen_time import p30, temporal_ser, there_and_back
W = 700
def go(cases, show=6, want=None):
    run.build()
    r = run.explore(cases)
    recs = r['recs']
    b = collections.Counter(x['build'] for x in recs.values())
    k = collections.Counter(o['k'] for x in recs.values() for o in x['outs'])
    print('builds', dict(b), 'outs', dict(k), 'states', r['states'], 'wall %.1f' % r['wall'], 'mism', len(r['mism']))
    bm = collections.Counter(x.get('buildm','')[:200] for x in recs.values() if x['build'] != 'ok')
    for m, n in bm.most_common(5): print('  build:', n, m)
    print(collections.Counter((m['what']) for m in r['mism']))
    seen = set(); n = 0
    for m in r['mism']:
        if m['id'] in seen: continue
        seen.add(m['id'])
        if want and m['what'] not in want: continue
        n += 1
        if n > show: break
        c = recs[m['id']]
        if m['what'] == 'build':
            print('BUILD', json.dumps(c['schemas'])[:W], c.get('buildm')); continue
        import check
        oi = max(0, m['op'] - 1)
        print('-----', m['id'], m['op'], m['what'], m.get('text', '')[:W])
        print("schema", json.dumps([x["v"] for x in c["schemas"]]), 'cfg', c['cfg'][0])
        used = set(re.findall(r'"r": (\d+)', json.dumps([c['schemas'], c['ops'][oi]])))
        print('heap', {i: c['heap'][int(i)-1] for i in used})
        if m['what'] != 'eval':
            print('op', json.dumps(c['ops'][oi]))
            print('got', json.dumps({k: v for k, v in c['outs'][oi].items() if k not in ('title',) and (k != 'log' or m['what'] == 'log')})[:W])
            t = check.replay_text(dict(c, ops=c['ops'][:m['op']], outs=c['outs'][:m['op']]), m)
            t = ' '.join(t.split())
            i = t.find('"MISMATCH"')
            j = min([x for x in (t.find('"MISMATCH"', i + 5), t.find('Model checking completed', i)) if x > 0] or [len(t)])
            t = t[i:j]
            k = t.rfind('[ k |->') if m['what'] == 'out' else len(t)
            print('exp', t[:k][:W])
    json.dump(r['recs'], open('/tmp/last.json', 'w'))
    return r
if __name__ == '__main__':
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    rng = random.Random(seed)
    show = int(sys.argv[3]) if len(sys.argv) > 3 else 5
    go(eval(sys.argv[1]), show)
