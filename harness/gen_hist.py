"""Menus: what a caller may do at every point of a history; TLC enumerates the histories."""
from __future__ import annotations
import copy

import run
from gen_nested import *
from gen_lazy import LG, usable
from gen_props import assigns, core, finish, instance


def sets_in(x):
    t = json_text(x)
    return "'set'" in t or "'frozenset'" in t or "'gen'" in t


def json_text(x):
    return str(x)


def menu(g, schemas, ops, depth, cfg=None, **kw):
    c = finish(g, schemas, [], cfg)
    if "'json'" in str(schemas):
        c['ops'] = ops
        from gen_nested import json_texts
        c['jtexts'] = json_texts(c, g.jtexts)
        c['ops'] = []
    c.update(menu=ops, depth=depth, **kw)
    return c


# ----------------------------------------------------------------------- P12
def m12(rng, tier, n=None):
    """Assignments to an instance, in every order."""
    out = []
    n = n or (40 if tier == 'thorough' else 10)
    while len(out) < n:
        g = G(rng, weights={'call': 0, 'definitions': 0, 'arguments': 0, 'set': 0, 'frozenset': 0}, depth=2, aliases=.2, functions=False,
              fn_raise=.5)
        s = g.make(rng.choice(['model', 'model', 'dataclass']), 0)
        c = core(s)
        if c['type'] == 'dataclass' and c['cls'] in ('DB', 'DS'):
            c['schema'].pop('extra_behavior', None)
            c['schema'].pop('extras_schema', None)
        if s['type'] not in ('model', 'dataclass') or c.get('root_model'):
            continue
        m = instance(g, c)
        ops = assigns(g, s, m, 6)
        if len({o['field'] for o in ops}) < 2:
            continue
        o = val(copy.deepcopy(m))
        ops.append(o)
        if sets_in([s, ops, g.heap]):
            continue
        # (an instance with more attributes than its schema has fields loses them)
        fs = {f['name'] for f in g.unwrap(c['schema'])['fields']}
        inst = g.heap[m['r'] - 1]
        known = all(k['s'] in fs for k, _ in inst['d']) and not inst['hx'] and 'init_only' not in str(s)
        out.append(menu(g, s, ops, 4 if tier == 'thorough' else 3, g.topcfg(), atomic=known))
    return out


# ----------------------------------------------------------------------- P18
def m18(rng, tier):
    """Opening and pulling iterators over shared sources, in every order."""
    out = []
    full = tier == 'thorough'
    item = [{'type': 'int'}, {'type': 'str'}, None, {'type': 'int', 'ge': I(2)}, {'type': 'list', 'items_schema': {'type': 'int'}},
            {'type': 'union', 'choices': [{'schema': {'type': 'int'}}, {'schema': {'type': 'str'}}]},
            {'type': 'default', 'schema': {'type': 'int'}, 'default': I(9), 'on_error': 'default'},
            {'type': 'generator', 'items_schema': {'type': 'int'}}]
    data = [[I(1), S('x'), I(3)], [S('1'), I(2)], [I(1), N, S('2')], [], [L(I(1)), L(S('x'))]]
    for it in item:
        for lo, hi in [(None, None), (2, None), (None, 2), (1, 1), (None, 0)]:
            if not full and rng.random() < .75:
                continue
            s = {'type': 'generator'}
            if it is not None:
                s['items_schema'] = copy.deepcopy(it)
            if lo is not None:
                s['min_length'] = lo
            if hi is not None:
                s['max_length'] = hi
            d = copy.deepcopy(rng.choice(data))
            g = LG(rng)
            src = g.cell({'t': 'src', 'l': d, 'fail': rng.choice([-1, -1, 0, 1, len(d)]), 'at': 0})
            lst = g.cell(L(*copy.deepcopy(rng.choice(data))))
            ops = [val(src), val(lst), {'op': 'pull', 's': 1, 'g': 1}, {'op': 'pull', 's': 1, 'g': 2},
                   {'op': 'push', 's': 1, 'm': lst, 'x': I(7)}]
            out.append(menu(g, s, ops, 6 if full else 4, None, lazy=True))
            # deeper, one history for every reachable state and call
            ops = copy.deepcopy(ops[:4]) + [val(L(*copy.deepcopy(d)), 'json')]
            ops[1]['x'] = copy.deepcopy(src)
            g2 = LG(rng)
            g2.heap = copy.deepcopy(g.heap)
            out.append(menu(g2, copy.deepcopy(s), ops, 9 if full else 7, None, lazy=True, graph=True))
            # an iterator inside something
            w = rng.choice(['list', 'typed-dict', 'nullable', 'union'])
            s2 = copy.deepcopy(s)
            if w == 'list':
                s3, x3 = {'type': 'list', 'items_schema': s2}, L(src, src)
            elif w == 'typed-dict':
                s3 = {'type': 'typed-dict', 'fields': [{'name': 'a', 'schema': s2}, {'name': 'b', 'schema': copy.deepcopy(s2)}]}
                x3 = M(('a', src), ('b', lst))
            elif w == 'nullable':
                s3, x3 = {'type': 'nullable', 'schema': s2}, src
            else:
                s3, x3 = {'type': 'union', 'choices': [{'schema': {'type': 'int'}}, {'schema': s2}]}, src
            g3 = LG(rng)
            g3.heap = copy.deepcopy(g.heap)
            ops = [val(copy.deepcopy(x3))] + [{'op': 'pull', 's': 1, 'g': k} for k in (1, 2, 3)]
            out.append(menu(g3, s3, ops, 7 if full else 5, None, lazy=True, graph=True))
    return out
