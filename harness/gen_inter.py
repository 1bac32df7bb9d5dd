"""Calls inside calls, calls next to calls, calls after calls (P19)."""
from __future__ import annotations
import copy
import json

from gen_nested import *
from gen_props import finish
import gen_ser
import gen_hist

FNW = {'function-before': 2, 'function-after': 2, 'function-wrap': 2, 'function-plain': .6, 'call': .3, 'definitions': 1.5, 'chain': .3}


def functions(s):
    """The user functions of a schema."""
    if isinstance(s, dict):
        if 'f' in s and 'b' in s:
            yield s
        for v in s.values():
            yield from functions(v)
    elif isinstance(s, list):
        for v in s:
            yield from functions(v)


def reenter(g, s, ops, p=.6):
    """Let some of the functions make calls of their own."""
    n = 0
    for f in list(functions(s)):
        if f['b'] in ('id', 'call', 'wrap_list', 'const', 'catch') and g.p(p) and 'key' not in f:
            f['b'] = 'reenter'
            f.pop('when', None)
            f.pop('v', None)
            f['re'] = copy.deepcopy(g.rng.choice(ops))
            n += 1
    return n


def only_value_functions(s):
    """Only functions of function-* schemas can call again (not factories, discriminators, call targets)."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if str(x.get('type', '')).startswith('function-') and isinstance(x.get('function'), dict):
                out.append(x['function'])
            for k, v in x.items():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(s)
    return out


def nestings(rng, n, nops=6):
    out = []
    while len(out) < n:
        g = G(rng, weights=FNW, depth=3, fn_raise=.15)
        g.part_off = False
        ss = [g.schema() for _ in range(rng.choice([1, 2, 2]))]
        fs = only_value_functions(ss)
        if not fs:
            continue
        inner = []
        for _ in range(4):
            i = rng.randrange(len(ss))
            o = g.op(ss[i])
            o['op'], o['s'] = 'validate', i + 1
            inner.append(o)
        if reenter(g, fs, inner) == 0:
            continue
        ops = []
        for _ in range(nops):
            i = rng.randrange(len(ss))
            o = g.op(ss[i])
            o['op'], o['s'] = 'validate', i + 1
            ops.append(o)
            if g.p(.3):
                ops.append(copy.deepcopy(o))
        c = finish(g, ss, [], [g.topcfg() for _ in ss])
        c['ops'] = ops + inner      # (for the texts)
        if "'json'" in str(ss):
            c['jtexts'] = json_texts(c, g.jtexts)
        c['ops'] = ops
        if "'gen'" in str(c) or "'set'" in str(c) or "'frozenset'" in str(c):
            continue
        out.append(c)
    return out


def recursions(rng, n):
    """Recursive schemas whose functions validate the same objects again while they are being validated."""
    out = []
    for _ in range(n):
        g = G(rng)
        kind = rng.choice(['function-before', 'function-after', 'function-wrap'])
        node = rng.choice([
            {'type': 'typed-dict', 'fields': [{'name': 'a', 'required': False, 'schema': {'type': 'definition-ref', 'schema_ref': 'T'}},
                                              {'name': 'b', 'required': False, 'schema': {'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'T'}}}]},
            {'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'T'}},
            {'type': 'dict', 'values_schema': {'type': 'definition-ref', 'schema_ref': 'T'}}])
        f = {'type': kind, 'schema': node, 'function': {'f': 'f1', 'b': 'call' if kind == 'function-wrap' else 'id'}}
        s = {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'T'}, 'definitions': [dict(f, ref='T')]}
        k = rng.randint(1, 4)
        for i in range(k):
            kids = [R(rng.randint(1, k)) for _ in range(rng.choice([0, 1, 1, 2]))]
            if node['type'] == 'list':
                g.heap.append(L(*kids))
            elif node['type'] == 'dict':
                g.heap.append(M(*[('k%d' % j, x) for j, x in enumerate(kids)]))
            else:
                g.heap.append(M(*([('a', kids[0])] if kids else []), *([('b', L(kids[1]))] if len(kids) > 1 else [])))
        ops = [dict(val(R(i + 1)), s=1) for i in range(k)]
        c = finish(g, s, [], {})
        f['function']['b'] = 'reenter'
        f['function']['re'] = copy.deepcopy(rng.choice(ops))
        c['schemas'][0]['v']['definitions'][0]['function'] = f['function']
        c['ops'] = ops + copy.deepcopy(ops)
        out.append(c)
    return out


def ser_nestings(rng, n, nops=5):
    out = []
    while len(out) < n:
        g = gen_ser.SG(rng, p_fn=.45, fn_raise=.1, p_bad=.05)
        g.gens = False
        s = g.schema(0)
        att = []
        fs = [x['function'] for x in walk(s) if x.get('type') in ('function-plain', 'function-wrap') and 'f' in x.get('function', {})]
        inner = [o for o in (g.sop(s, kinds=('to_python', 'to_json'), opts=.1) for _ in range(4)) if not gen_ser.dup_key(o['x'])]
        for o in inner:
            o['warnings'] = 'none'
        if not fs or not inner or reenter(g, fs, inner) == 0:
            continue
        ops = [g.sop(s, kinds=('to_python', 'to_json'), opts=.1) for _ in range(nops)]
        c = gen_ser.build(g, s, ops, att=att)
        if "'set'" in str(c) or "'frozenset'" in str(c):
            continue
        out.append(c)
    return out


def walk(s):
    if isinstance(s, dict):
        yield s
        for v in s.values():
            yield from walk(v)
    elif isinstance(s, list):
        for v in s:
            yield from walk(v)


def pairs(rng, n):
    """Two calls for the threads."""
    out = []
    while len(out) < n:
        if rng.random() < .35:
            c = recursions(rng, 1)[0]
        else:
            cs = nestings(rng, 1, 4) if rng.random() < .7 else ser_nestings(rng, 1, 4)
            c = cs[0]
        ops = [o for o in c['ops'] if o['op'] in ('validate', 'to_python', 'to_json')]
        if len(ops) < 2:
            continue
        m = dict(c)
        m['ops'] = []
        m['menu'] = [copy.deepcopy(o) for o in rng.sample(ops, 2)]
        out.append(m)
    return out


def m19(rng, tier):
    """Any few calls of any validators, in every order."""
    out = []
    n = 14 if tier == 'quick' else 60
    while len(out) < n:
        c = recursions(rng, 1)[0] if rng.random() < .3 else nestings(rng, 1, 5)[0] if rng.random() < .6 else ser_nestings(rng, 1, 5)[0]
        if len(c['ops']) < 3 or gen_hist.sets_in(c):
            continue
        m = dict(c)
        m['menu'] = c['ops'][:5]
        m['ops'] = []
        m['depth'] = 3 if tier == 'quick' else 4
        out.append(m)
    return out


def p19(rng, tier):
    k = 6 if tier == 'thorough' else 1
    return nestings(rng, 900 * k) + recursions(rng, 500 * k) + ser_nestings(rng, 500 * k)
