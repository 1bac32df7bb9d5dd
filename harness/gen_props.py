"""Focused generators: one per property of validation."""
from __future__ import annotations
import copy
import random

from values import *
from gen_nested import G, nested, json_texts, KEYS, MODEL_CLASSES, DC_CLASSES


def duplicates(rng, cases, p=.15):
    """JSON objects in which a key comes more than once."""
    def sub(v):
        if isinstance(v, list):
            return [sub(x) for x in v]
        if not isinstance(v, dict) or 't' not in v:
            return v
        v = {k: sub(x) if k in ('l', 'd') else x for k, x in v.items()}
        if v['t'] == 'dict' and v['d'] and rng.random() < .5:
            k = rng.choice(v['d'])[0]
            x = rng.choice([I(1), I(2), S('x'), N, L(I(1)), rng.choice(v['d'])[1]])
            v['d'] = list(v['d'])
            v['d'].insert(rng.randint(0, len(v['d'])), [k, copy.deepcopy(x)])
        return v
    for c in cases:
        if "'tagged-union'" in str(c['schemas']) and "'call'" in str(c['schemas']):
            continue
        for o in c['ops']:
            if o['op'] == 'validate' and o['mode'] == 'json' and 'text' not in o and rng.random() < p:
                o['x'] = sub(o['x'])
                o['dup'] = True
    return cases


def finish(g, s, ops, cfg=None, **kw):
    schemas = s if isinstance(s, list) else [s]
    c = case(schemas, ops, heap=g.heap, cfg=cfg or None, **kw)
    if "'json'" in str(schemas):
        c['jtexts'] = json_texts(c, g.jtexts)
    return c


def rooted(rng, n, roots, nops=8, modes=('python', 'python', 'json', 'strings'), tweak=None, extra=None, views=False, **kw):
    """Cases whose outermost schema is one of `roots`."""
    out = []
    for _ in range(n):
        g = G(rng, **kw)
        g.part_off = False
        t = rng.choice(roots)
        s = g.make(t, 0)
        if tweak:
            s = tweak(g, s) or s
        cfg = g.topcfg()
        if g.part_off:
            g.partial = False
        ops = [g.op(s, modes) for _ in range(nops)]
        if extra:
            ops += extra(g, s)
        out.append(finish(g, s, ops, cfg, **({'views': True} if views else {})))
    return out


# ----------------------------------------------------------------------- P12
def instance(g, s, extra=True):
    """A heap cell holding an instance of the class of a model or dataclass schema."""
    r = g.rng
    if s['type'] == 'model':
        if s.get('root_model'):
            return g.cell(INST(s['cls'], [('root', g.value(s['schema'], 'python', True))], ['root']))
        fs = g.unwrap(s['schema'])['fields']
        d = [(f['name'], g.value(f['schema'], 'python', True)) for f in fs if not g.p(.05)]
        setn = [f['name'] for f in fs if g.p(.6)]
        ex = [('q', I(1))] if g.p(.3) else None
        v = INST(s['cls'], d, setn, ex)
        if g.p(.04):
            v['hf'], v['fs'] = False, []
        return g.cell(v)
    names = {'DB': ['a', 'b']}.get(s['cls'], KEYS)
    by = {f['name']: f for f in s['schema']['fields']}
    return g.cell(INST(s['cls'], [(n, g.value(by[n]['schema'], 'python', True) if n in by else I(1)) for n in names]))


def core(s):
    while s['type'] not in ('model', 'dataclass'):
        if s['type'] == 'definitions':
            s = s['definitions'][0]
        else:
            s = s['schema']
    return s


def assigns(g, s, m, n):
    r = g.rng
    c = core(s)
    fs = [] if c.get('root_model') else g.unwrap(c['schema'])['fields']
    ops = []
    for _ in range(n):
        x = r.random()
        if c.get('root_model'):
            f, v = ('root' if x < .85 else 'a'), g.value(c['schema'], 'python')
        elif fs and x < .85:
            fd = r.choice(fs)
            f, v = fd['name'], g.value(fd['schema'], 'python', g.p(.25))
        else:
            f, v = r.choice(['q', 'z', 'zz']), g.scalar()
        o = {'op': 'assign', 's': 1, 'mode': 'python', 'm': m, 'field': f, 'x': v}
        if g.p(.15):
            o['strict'] = r.choice(['true', 'false'])
        if g.p(.1):
            o['from_attributes'] = r.choice(['true', 'false'])
        ops.append(o)
    return ops


def p12(rng, tier, n=2600):
    out = []
    if tier == 'thorough':
        n *= 6
    for _ in range(n):
        g = G(rng, weights={'call': 0, 'definitions': 0, 'arguments': .2, 'tagged-union': .3}, depth=2, aliases=.2)
        s = g.make(rng.choice(['model', 'model', 'dataclass']), 0)
        c = core(s)
        if c['type'] == 'dataclass':
            if c['cls'] in ('DB', 'DS'):
                c['schema'].pop('extra_behavior', None)
                c['schema'].pop('extras_schema', None)
        x = rng.random()
        w = s
        if x < .08:
            w = {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'T'}, 'definitions': [dict(s, ref='T')]}
            s = w['definitions'][0]
        elif x < .16:
            g.nf += 1
            w = {'type': rng.choice(['function-before', 'function-after']), 'schema': s, 'function': {'f': 'w%d' % g.nf, 'b': 'id'}}
        elif x < .2:
            g.nf += 1
            w = {'type': 'function-wrap', 'schema': s, 'function': {'f': 'w%d' % g.nf, 'b': 'call'}}
        elif x < .22:
            w = {'type': 'nullable', 'schema': s}
        ms = [instance(g, core(s)) for _ in range(rng.choice([1, 1, 2]))]
        ops = []
        for _ in range(10):
            ops += assigns(g, w if w['type'] != 'nullable' else s, rng.choice(ms), 1)
        for o in ops:
            o['s'] = 1
        out.append(finish(g, w, ops, g.topcfg()))
    return out


# ----------------------------------------------------------------------- P04
PLAINW = {'function-before': 0, 'function-after': 0, 'function-wrap': 0, 'function-plain': 0, 'call': 0, 'definitions': 0,
          'arguments': 0, 'chain': 0}
CONT = ['list', 'set', 'frozenset', 'tuple', 'dict']


def seqs(items):
    """The same items as every kind of collection."""
    l = [copy.deepcopy(i) for i in items]
    ks = [G.eqkey(i) for i in l]
    hs = [i for n, i in enumerate(l) if ks[n] not in ks[:n]]
    return [L(*l), T(*l), {'t': 'set', 'l': hs}, FS(*hs), ITB('deque', l), ITB('iter', l), ITB('gen', l),
            ITB('keys', hs), ITB('values', l)]


def p04(rng, tier):
    out = []
    # every container, every bound, every short input with bad items anywhere
    for t in ('list', 'set', 'frozenset'):
        for lo in (None, 0, 1, 2, 3):
            for hi in (None, 0, 1, 2, 3):
                for ff in (None, True):
                    s = {'type': t, 'items_schema': {'type': 'int'}}
                    if lo is not None:
                        s['min_length'] = lo
                    if hi is not None:
                        s['max_length'] = hi
                    if ff:
                        s['fail_fast'] = True
                    ops, heap = [], []
                    for n in range(5):
                        for k in range(2):
                            it = [I(rng.choice([1, 2, 3, 4, 5])) if rng.random() < .75 else rng.choice([S('x'), S('1'), F(1.5), F(1.0), B(True), N])
                                  for _ in range(n)]
                            v = rng.choice(seqs(it))
                            if v['t'] in ('itb', 'set'):
                                heap.append(v)
                                v = R(len(heap))
                            ops.append(val(v))
                            if rng.random() < .5:
                                ops.append(val(L(*[copy.deepcopy(i) for i in it]), 'json'))
                    out.append(case(s, ops, heap=heap))
    for n in range(4):
        for var in [None] + list(range(n)):
            for lo, hi in ((None, None), (2, None), (None, 2), (1, 3)):
                its = rng.choice([['int', 'str', 'bool'], ['str', 'int', 'float'], ['any', 'int', 'str']])[:n]
                s = {'type': 'tuple', 'items_schema': [{'type': x} for x in its]}
                if var is not None:
                    s['variadic_item_index'] = var
                if lo is not None:
                    s['min_length'] = lo
                if hi is not None:
                    s['max_length'] = hi
                if rng.random() < .3:
                    s['fail_fast'] = True
                ops = []
                for k in range(6):
                    it = [rng.choice([I(1), S('a'), B(True), S('1'), F(1.5), N]) for _ in range(k)]
                    ops.append(val(T(*it)))
                    ops.append(val(L(*it), rng.choice(['python', 'json'])))
                out.append(case(s, ops))
    for lo in (None, 0, 1, 2):
        for hi in (None, 0, 1, 2):
            for ks in ('str', 'int', 'any'):
                s = {'type': 'dict', 'keys_schema': {'type': ks}, 'values_schema': {'type': 'int'}}
                if lo is not None:
                    s['min_length'] = lo
                if hi is not None:
                    s['max_length'] = hi
                ops, heap = [], []
                for n in range(4):
                    d, seen = [], set()
                    for _ in range(n):
                        k = rng.choice([S('1'), I(1), S('a'), S('2'), F(1.0), S('01'), B(True), S('b')])
                        e = G.eqkey(k)
                        if e not in seen:
                            seen.add(e)
                            d.append([k, rng.choice([I(1), S('2'), S('x'), N, I(3)])])
                    heap.append({'t': rng.choice(['dict', 'map']), 'd': d})
                    ops.append(val(R(len(heap))))
                    if all(k['t'] == 'str' for k, _ in d):
                        ops.append(val({'t': 'dict', 'd': d}, rng.choice(['json', 'strings']) if all(v['t'] == 'str' for _, v in d) else 'json'))
                out.append(case(s, ops, heap=heap))
    n = 2200 if tier == 'quick' else 20000
    out += rooted(rng, n, CONT, depth=2, weights=dict(PLAINW, **{'function-after': .8, 'function-before': .3, 'default': .8, 'int': 8}), p_bad=.2)
    return duplicates(rng, out)


# ----------------------------------------------------------------------- P05
def p05(rng, tier):
    n = 1500 if tier == 'quick' else 12000
    roots = ['list', 'tuple', 'dict', 'typed-dict', 'model', 'dataclass', 'union', 'tagged-union', 'arguments', 'set', 'json', 'definitions',
             'function-before', 'function-wrap', 'nullable', 'custom-error']
    return rooted(rng, n, roots, depth=3, p_bad=.3, views=True) + rooted(rng, n // 2, roots, depth=2, p_bad=.35, views=True, aliases=.7)


# ----------------------------------------------------------------------- P06
UNION_LEAVES = [{'type': 'int'}, {'type': 'str'}, {'type': 'float'}, {'type': 'bool'}, {'type': 'bytes'}, {'type': 'none'},
                {'type': 'int', 'strict': True}, {'type': 'float', 'strict': True}, {'type': 'str', 'strict': True}, {'type': 'any'},
                {'type': 'literal', 'expected': [I(1), S('a')]}, {'type': 'enum', 'cls': 'EInt'}, {'type': 'enum', 'cls': 'EStr'},
                {'type': 'is-instance', 'cls': 'int'}, {'type': 'int', 'ge': I(2)}, {'type': 'str', 'max_length': 1},
                {'type': 'list', 'items_schema': {'type': 'int'}}, {'type': 'list', 'items_schema': {'type': 'str'}},
                {'type': 'tuple', 'items_schema': [{'type': 'int'}], 'variadic_item_index': 0}, {'type': 'set', 'items_schema': {'type': 'int'}},
                {'type': 'dict'}, {'type': 'dict', 'keys_schema': {'type': 'str'}, 'values_schema': {'type': 'int'}},
                {'type': 'nullable', 'schema': {'type': 'int'}},
                {'type': 'lax-or-strict', 'lax_schema': {'type': 'str'}, 'strict_schema': {'type': 'int'}}]
UNION_INPUTS = [I(1), I(2), I(0), S('1'), S('a'), S('abc'), F(1.0), F(1.5), B(True), B(False), N, BY('1'), L(), L(I(1), I(2)), L(S('1')), T(I(1)), M(),
                M(('a', I(1))), M(('a', S('1'))), E('EInt', 'ONE'), E('EStr', 'X'), {'t': 'intsub', 'i': 1}, {'t': 'strsub', 's': 'a'}, FS(I(1)), D('1')]


def choice(s, rng=None, label=None):
    return {'schema': s, **({'label': label} if label else {})}


def unions(rng, n, modes, mode_key):
    out = []
    nl = len(UNION_LEAVES)
    combos = [(i, j) for i in range(nl) for j in range(nl)] if n == 2 else \
        [tuple(rng.randrange(nl) for _ in range(n)) for _ in range(250)]
    for c in combos:
        s = {'type': 'union', 'choices': [choice(copy.deepcopy(UNION_LEAVES[i])) for i in c]}
        if rng.random() < .5 or mode_key != 'smart':
            s['mode'] = mode_key
        ops = []
        for x in rng.sample(UNION_INPUTS, 10):
            m = rng.choice(modes)
            if m == 'json' and not jsonable(x) or m == 'strings' and x['t'] != 'str':
                m = 'python'
            o = val(copy.deepcopy(x), m)
            if 'lax-or-strict' not in str(s):
                o['prop'] = 'union'
            if rng.random() < .2:
                o['strict'] = rng.choice(['true', 'false'])
            ops.append(o)
        cfg = {'strict': True} if rng.random() < .1 else {}
        out.append(case(s, ops, cfg=cfg or None))
    return out


def fielded(rng, n, mode_key):
    """Unions of record schemas that differ in how many fields they recognise."""
    out = []
    for _ in range(n):
        g = G(rng, weights=dict(PLAINW, **{'tagged-union': .2, 'union': .6, 'json': 0, 'is-instance': 0, 'callable': 0}), depth=2, aliases=.2, p_bad=.1)
        g.part_off = False
        ch = []
        for _ in range(rng.choice([2, 2, 3])):
            t = rng.choice(['model', 'typed-dict', 'dataclass', 'model', 'nullable', 'list'])
            c = g.make(t, 1)
            if t in ('nullable', 'list'):
                c['schema' if t == 'nullable' else 'items_schema'] = g.make(rng.choice(['model', 'typed-dict']), 2)
            ch.append(choice(c, label='U%d' % len(ch) if rng.random() < .2 else None))
        s = {'type': 'union', 'choices': ch}
        if mode_key != 'smart':
            s['mode'] = mode_key
        out.append(finish(g, s, [dict(g.op(s, ('python', 'python', 'json'))) for _ in range(8)], g.topcfg()))
    return out


def counted(rng, n):
    """Records inside records, where the number of fields recognised on every level decides which choice wins."""
    names = ['a', 'b', 'c', 'd', 'e']
    out = []
    for _ in range(n):
        used = []

        def rec(d, lo=1):
            t = rng.choice(['model', 'model', 'typed-dict', 'dataclass'])
            classes = [c for c in (['MA', 'MB', 'MC'] if t == 'model' else ['DA', 'DB']) if c not in used] or [None]
            cls = rng.choice(classes)
            if t != 'typed-dict' and cls is None:
                t = 'typed-dict'
            fs = []
            for nm in rng.sample(names[:2] if cls == 'DB' else names, rng.randint(lo, 2 if cls == 'DB' else 4)):
                s = {'type': rng.choice(['int', 'int', 'any', 'str'])}
                if d and (nm == 'a' or rng.random() < .25):
                    s = union(d - 1) if rng.random() < .8 else {'type': 'list', 'items_schema': union(d - 1)}
                if rng.random() < .75:
                    s = {'type': 'default', 'schema': s, 'default': I(0)}
                fs.append({'name': nm, 'schema': s, **({'required': False} if t == 'typed-dict' and s['type'] == 'default' else {})})
            fs.sort(key=lambda f: f['schema']['type'] == 'default')
            if t == 'typed-dict':
                return {'type': t, 'fields': fs}
            used.append(cls)
            if t == 'model':
                s = {'type': 'model', 'cls': cls, 'schema': {'type': 'model-fields', 'fields': fs}}
            else:
                s = {'type': 'dataclass', 'cls': cls, 'schema': {'type': 'dataclass-args', 'dataclass_name': 'Dc', 'fields': fs}, 'fields': [f['name'] for f in fs]}
            return wrapped(s)

        def wrapped(s):
            k = rng.random()
            if k < .06:
                return {'type': 'nullable', 'schema': s}
            if k < .1:
                return {'type': 'function-wrap', 'schema': s, 'function': {'f': 'w1', 'b': 'call'}}
            if k < .13:
                return {'type': 'lax-or-strict', 'lax_schema': s, 'strict_schema': copy.deepcopy(s)}
            return s

        def union(d):
            return {'type': 'union', 'choices': [choice(rec(d)) for _ in range(rng.choice([2, 2, 3]))]}

        def inp(d):
            return M(*[(nm, inp(d - 1) if d and (nm == 'a' and rng.random() < .8 or rng.random() < .15) else
                        rng.choice([I(1), I(2), S('3'), S('x')]) if rng.random() < .25 else I(1))
                       for nm in rng.sample(names, rng.randint(1, 5))])
        s = union(rng.choice([1, 1, 2]))
        if rng.random() < .2:
            s = {'type': 'typed-dict', 'fields': [{'name': 'a', 'schema': s}]}
        ops = [val(inp(3), rng.choice(['python', 'python', 'json'])) for _ in range(10)]
        out.append(case(s, ops))
    return out


def p06(rng, tier):
    k = 1 if tier == 'quick' else 8
    out = unions(rng, 2, ['python', 'python', 'json', 'strings'], 'smart')
    out += unions(rng, 3, ['python', 'json', 'strings'], 'smart')
    out += fielded(rng, 500 * k, 'smart')
    out += counted(rng, 300 * k)
    out += rooted(rng, 700 * k, ['union'], depth=3, weights={'call': 0},
                  tweak=lambda g, s: s.update(mode='smart'))
    return duplicates(rng, out)


def p07(rng, tier):
    k = 1 if tier == 'quick' else 8
    out = unions(rng, 2, ['python', 'json', 'strings'], 'left_to_right')[::2] + fielded(rng, 200 * k, 'left_to_right')
    out += rooted(rng, 300 * k, ['union'], depth=2, tweak=lambda g, s: s.update(mode='left_to_right'))
    out += rooted(rng, 1600 * k, ['tagged-union'], depth=2)
    out += rooted(rng, 300 * k, ['list', 'nullable', 'typed-dict'], depth=2, weights={'tagged-union': 12})
    return out


# ----------------------------------------------------------------------- P08
def inst_free(c):
    return "'inst'" not in str(c['schemas']) and "'const'" not in str(c['schemas'])


def deep_cells(heap):
    """Give every mutable object inside a heap cell a cell of its own."""
    def sub(v):
        if isinstance(v, list):
            return [sub(x) for x in v]
        if not isinstance(v, dict) or 't' not in v:
            return v
        v = {k: sub(x) if k in ('l', 'd', 'x') else x for k, x in v.items()}
        if v['t'] in ('list', 'dict', 'set', 'inst', 'bytearray', 'map', 'args'):
            heap.append(v)
            return R(len(heap))
        return v
    for i in range(len(heap)):
        c = heap[i]
        heap[i] = {k: sub(x) if k in ('l', 'd', 'x') else x for k, x in c.items()}


def scribbled(cases, rng, p=.7):
    """Between calls, everything results are made of is changed by the caller."""
    for c in cases:
        if inst_free(c) and rng.random() < p:
            deep_cells(c['heap'])
            for o in c['ops']:
                if o['op'] in ('validate', 'default'):
                    o['scribble'] = True
    return cases


def p08(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'default': 6, 'call': .1, 'list': 2, 'dict': 2}

    def extra(g, s):
        return [{'op': 'default', 's': 1, 'mode': 'python'}, {'op': 'default', 's': 1, 'mode': 'python'}]

    def undef(g, s):
        return extra(g, s) + [val(UNDEF), val(UNDEF)]
    out = rooted(rng, 900 * k, ['default'], depth=2, weights=w, extra=undef, nops=5, modes=('python', 'json'))
    out += rooted(rng, 1500 * k, ['typed-dict', 'model', 'dataclass', 'arguments', 'list', 'tuple'], depth=2, weights=w, extra=None, nops=6)
    out += rooted(rng, 200 * k, ['definitions', 'nullable', 'chain', 'function-wrap'], depth=2, weights=w, extra=extra, nops=6)
    return duplicates(rng, scribbled(out, rng))


# ------------------------------------------------------------------- P09..P11
def p09(rng, tier):
    k = 1 if tier == 'quick' else 8
    out = rooted(rng, 2600 * k, ['typed-dict', 'model', 'model', 'dataclass', 'typed-dict', 'list'], depth=2, aliases=.25,
                 weights=dict(PLAINW, **{'typed-dict': 2, 'model': 2, 'default': 2, 'function-after': .5}))
    return duplicates(rng, out)


def p10(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = dict(PLAINW, **{'typed-dict': 2, 'model': 2, 'dataclass': 1.5, 'default': 1.5, 'arguments': .5})
    out = rooted(rng, 2200 * k, ['typed-dict', 'model', 'dataclass', 'arguments', 'tagged-union'], depth=2, aliases=.95, weights=w, p_bad=.06,
                 modes=('python', 'python', 'json', 'strings'))
    for c in out:
        for o in c['ops']:
            if o['op'] == 'validate' and rng.random() < .35:
                if rng.random() < .7:
                    o['by_name'] = rng.choice(['true', 'true', 'false'])
                if rng.random() < .5:
                    o['by_alias'] = rng.choice(['true', 'false'])
                if o.get('by_alias') == 'false' and o.get('by_name') != 'true':
                    o['by_name'] = 'true'
    return duplicates(rng, out)


def p11(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = dict(PLAINW, **{'model': 6, 'int': 8, 'default': 1.5, 'function-after': .3})

    def tweak(g, s):
        c = core(s)
        if c['type'] == 'model' and g.p(.5):
            c['revalidate_instances'] = g.rng.choice(['always', 'subclass-instances', 'never'])
        if c['type'] == 'model' and not c.get('root_model') and g.p(.2):
            c['post_init'] = 'hook'

    def extra(g, s):
        c = core(s)
        if c['type'] != 'model':
            return []
        r, ops = g.rng, []
        for _ in range(3):
            m = instance(g, c)
            if g.p(.5):
                cls = r.choice([c['cls'], 'MA1', 'MA', 'MB'])
                g.heap[m['r'] - 1]['c'] = cls
            ops.append(val(m, strict=r.choice(['none', 'true', 'false'])))
        for _ in range(2):
            g.heap.append(INST(c['cls'], [], None))
            g.heap[-1]['d'] = []
            me = R(len(g.heap))
            ops.append(dict(g.op(c, ('python', 'json')), self=me, op='validate'))
        return ops
    out = rooted(rng, 2000 * k, ['model'], depth=2, weights=w, nops=6, tweak=tweak, extra=extra)
    out += rooted(rng, 400 * k, ['list', 'union', 'nullable', 'dict'], depth=2, weights=dict(w, model=12), nops=8)
    return scribbled(out, rng, .4)


# ----------------------------------------------------------------------- P13
def rec_schema(rng):
    """A recursive schema and what one level of input looks like."""
    ref = {'type': 'definition-ref', 'schema_ref': 'R'}
    k = rng.choice(['list', 'listu', 'dict', 'td', 'model', 'dc', 'tuple', 'two', 'set', 'any2', 'before', 'before'])
    nul = {'type': 'nullable', 'schema': ref}
    if k == 'list':
        body = {'type': 'list', 'items_schema': ref}
    elif k == 'listu':
        ch = [{'schema': {'type': 'int'}, 'label': 'i'}, {'schema': {'type': 'list', 'items_schema': ref}, 'label': 'r'}]
        rng.shuffle(ch)
        body = {'type': 'union', 'choices': ch}
        if rng.random() < .5:
            body['mode'] = 'left_to_right'
    elif k == 'dict':
        body = {'type': 'dict', 'values_schema': nul}
    elif k == 'tuple':
        body = {'type': 'tuple', 'items_schema': [nul, nul], 'variadic_item_index': 1}
    elif k == 'two':
        body = {'type': 'tuple', 'items_schema': [ref], 'variadic_item_index': 0}
    elif k == 'set':
        body = {'type': 'list', 'items_schema': {'type': 'union', 'choices': [{'schema': ref, 'label': 'a'}, {'schema': {'type': 'list', 'items_schema': ref}, 'label': 'b'}]}}
    elif k == 'any2':
        body = {'type': 'list', 'items_schema': {'type': 'default', 'schema': ref, 'default': N, 'on_error': 'default'}}
    elif k == 'before':
        body = {'type': 'function-before', 'schema': {'type': 'list', 'items_schema': ref}, 'function': {'f': 'fb', 'b': 'id'}}
    else:
        fs = [{'name': 'a', 'schema': {'type': 'default', 'schema': nul, 'default': N}},
              {'name': 'b', 'schema': {'type': 'default', 'schema': {'type': 'list', 'items_schema': ref}, 'default': N}}]
        if k == 'td':
            body = {'type': 'typed-dict', 'fields': [dict(f, required=False) for f in fs]}
        elif k == 'model':
            body = {'type': 'model', 'cls': 'MA', 'schema': {'type': 'model-fields', 'fields': fs}}
            if rng.random() < .5:
                body['revalidate_instances'] = rng.choice(['always', 'subclass-instances'])
        else:
            body = {'type': 'dataclass', 'cls': 'DA', 'schema': {'type': 'dataclass-args', 'dataclass_name': 'DA', 'fields': fs}, 'fields': ['a', 'b']}
            if rng.random() < .5:
                body['revalidate_instances'] = 'always'
    body['ref'] = 'R'
    x = rng.random()
    main = ref
    if x < .2:
        main = {'type': 'list', 'items_schema': ref}
    elif x < .35:
        main = {'type': 'tuple', 'items_schema': [ref, {'type': 'list', 'items_schema': ref}]}
    elif x < .45:
        main = {'type': 'union', 'choices': [{'schema': ref, 'label': 'rec'}, {'schema': {'type': 'list', 'items_schema': {'type': 'any'}}, 'label': 'any'}]}
    defs = [body]
    if rng.random() < .2:
        defs.append({'type': 'list', 'items_schema': ref, 'ref': 'Q'})
        body2 = {'type': 'nullable', 'schema': {'type': 'definition-ref', 'schema_ref': 'Q'}}
        main = {'type': 'tuple', 'items_schema': [main, body2]}
    return {'type': 'definitions', 'schema': main, 'definitions': defs}, k


def rec_heap(rng, k, n, cyc, ring=False):
    """n cells shaped for the schema, their edges drawn at random (or making up one long way, which may end in a cycle)."""
    heap = []
    for i in range(n):
        def tgt():
            if ring:
                return R(i + 2) if i < n - 1 else R(rng.choice([1, 1, 2, n // 2, n])) if cyc else None
            js = list(range(1, n + 1)) if cyc else list(range(i + 2, n + 1))
            return R(rng.choice(js)) if js else None
        es = [e for e in (tgt() for _ in range(1 if ring else rng.choice([0, 1, 1, 2]))) if e is not None]
        if k in ('list', 'listu', 'tuple', 'two', 'set', 'any2', 'before'):
            if k == 'listu' and rng.random() < .4:
                es.append(I(rng.randint(0, 3)))
            if k == 'tuple' and rng.random() < .3:
                es.append(N)
            if rng.random() < (.02 if ring else .1):
                es.append(S('x'))
            heap.append(L(*es))
        elif k == 'dict':
            heap.append({'t': 'dict', 'd': [[S('k%d' % j), e] for j, e in enumerate(es)]})
        else:
            d = []
            if es and rng.random() < .8:
                d.append(['a', es[0]])
            if es and not (ring and d):
                d.append(['b', L(*es)])
            if rng.random() < (.01 if ring else .08):
                d = [['a', S('x')]] + [e for e in d if e[0] != 'a']
            if k == 'model' and rng.random() < .5:
                heap.append(INST('MA', d, [e[0] for e in d]))
            elif k == 'dc' and rng.random() < .5:
                heap.append(INST('DA', d))
            else:
                heap.append({'t': 'dict', 'd': [[S(a), b] for a, b in d]})
    return heap


def p13(rng, tier):
    out = []
    n = 1500 if tier == 'quick' else 12000
    for _ in range(n):
        s, k = rec_schema(rng)
        m = rng.choice([1, 2, 3, 3, 4, 5])
        cyc = rng.random() < .55
        heap = rec_heap(rng, k, m, cyc)
        if len(str(heap)) > 1200:
            continue
        xs = [R(i + 1) for i in range(m)] + [L(R(1), R(m)), L(*[R(i + 1) for i in range(m)]), T(R(1), R(1)), T(R(1), L(R(1), R(m)))]
        ops = [val(x, prop='cycle') for x in rng.sample(xs, min(len(xs), 5))]
        # the same call again: nothing may be left over from the failure before
        ops += [dict(o) for o in rng.sample(ops, 2)]
        if rng.random() < .3:
            for o in ops:
                o['strict'] = rng.choice(['none', 'true'])
        out.append(case(s, ops, heap=heap))
    # longer ways round than the guard keeps in its small array
    for _ in range(150 if tier == 'quick' else 1000):
        s, k = rec_schema(rng)
        if k == 'set':  # (two ways down at every level)
            continue
        m = rng.choice([8, 14, 15, 16, 17, 17, 18, 20, 33])
        heap = rec_heap(rng, k, m, rng.random() < .8, ring=True)
        xs = [R(1), R(2), R(m), L(R(1), R(m))]
        out.append(case(s, [val(x, prop='cycle') for x in rng.sample(xs, 3)], heap=heap))
    # every graph of two list cells
    nodes = [[], [1], [2], [1, 1], [1, 2], [2, 1], [2, 2]]
    for a in nodes:
        for b in nodes:
            for body in ({'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'R'}, 'ref': 'R'},
                         {'type': 'union', 'ref': 'R', 'choices': [
                             {'schema': {'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'R'}}, 'label': 'l'},
                             {'schema': {'type': 'list', 'items_schema': {'type': 'any'}}, 'label': 'a'}]}):
                out.append(case({'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'R'}, 'definitions': [body]},
                                [val(R(1), prop='cycle'), val(R(2), prop='cycle'), val(R(1), prop='cycle')],
                                heap=[L(*[R(i) for i in a]), L(*[R(i) for i in b])]))
    # long chains around the depth limit
    for depth in (60, 150, 233, 234, 235, 236, 240):
        heap = [L(R(i + 2)) for i in range(depth - 1)] + [L()]
        s = {'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'R'},
             'definitions': [{'type': 'list', 'items_schema': {'type': 'definition-ref', 'schema_ref': 'R'}, 'ref': 'R'}]}
        out.append(case(s, [val(R(k), measure=True) for k in (1, 2, depth, 1)], heap=heap))
    return out


# ----------------------------------------------------------------------- P14
def p14(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'function-before': 3, 'function-after': 3, 'function-wrap': 4, 'function-plain': 2, 'default': 1.5, 'int': 8, 'call': .4, 'chain': .6}
    out = rooted(rng, 1200 * k, ['function-before', 'function-after', 'function-wrap', 'chain'], depth=3, weights=w)
    out += rooted(rng, 1400 * k, ['typed-dict', 'model', 'dataclass', 'list', 'dict', 'union', 'tuple', 'arguments'], depth=2, weights=w)
    return duplicates(rng, out)


# ----------------------------------------------------------------------- P15
def stringy(g, v):
    t = v['t']
    if t == 'dict':
        return {'t': 'dict', 'd': [[k, stringy(g, x)] for k, x in v['d'] if k['t'] == 'str']}
    return v if t == 'str' else S('1')


def p15(rng, tier):
    out = []
    n = 2000 if tier == 'quick' else 16000
    for _ in range(n):
        g = G(rng, weights={'call': .05, 'function-wrap': .1, 'function-plain': .1, 'is-instance': .1, 'json': .8, 'definitions': .3, 'float': 3}, depth=3, aliases=.25)
        g.part_off = False
        s = g.schema()
        ops = []
        for _ in range(4):
            x = g.value(s, rng.choice(['json', 'json', 'strings']))
            if not jsonable(x):
                continue
            kw = {}
            if rng.random() < .2:
                kw['strict'] = rng.choice(['true', 'false'])
            ops.append(val(copy.deepcopy(x), 'json', form=rng.choice(['str', 'bytes', 'bytearray']), **kw))
            ops.append(val(copy.deepcopy(x), 'python', **kw))
            if x['t'] in ('str', 'dict'):
                ops.append(val(stringy(g, copy.deepcopy(x)), 'strings', **kw))
        if ops:
            out.append(finish(g, s, ops, g.topcfg()))
    return out


# ------------------------------------------------------------------ P16, P17
def p16(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'arguments': 1, 'call': 1, 'default': 1.5, 'int': 8}
    return rooted(rng, 2600 * k, ['arguments', 'arguments', 'call', 'list'], depth=2, weights=w, modes=('python', 'python', 'python', 'json'), aliases=.4)


def positional(rng, n):
    """Unions of dataclasses given by position and by name: the number of fields set decides."""
    out = []
    for _ in range(n):
        def dc(cls):
            fs = []
            for nm in rng.sample(['a', 'b', 'c'], rng.randint(1, 3)):
                s = {'type': rng.choice(['int', 'int', 'any', 'str', 'float'])}
                f = {'name': nm}
                if rng.random() < .45:
                    s = {'type': 'default', 'schema': s, 'default': I(0)}
                    if rng.random() < .4:
                        f['init'] = False
                if f.get('init', True):
                    k = rng.random()
                    f.update({'kw_only': False} if k < .75 else {'kw_only': True} if k < .9 else {})
                fs.append(dict(f, schema=s))
            s = {'type': 'dataclass', 'cls': cls, 'fields': [f['name'] for f in fs],
                 'schema': {'type': 'dataclass-args', 'dataclass_name': 'Dc', 'fields': fs, 'collect_init_only': False}}
            return s
        cs = [dc(c) for c in rng.sample(['DA', 'DA1', 'DB', 'DP'], rng.choice([2, 2, 3]))]
        if rng.random() < .5:
            # something else that takes the same input, and knows so many fields
            m = rng.sample(['a', 'b', 'c', 'd', 'e'], rng.randint(1, 4))
            q = {'type': rng.choice(['typed-dict', 'model-fields']), 'fields': [{'name': nm, 'schema': {'type': 'int'}} for nm in m]}
            if q['type'] == 'model-fields':
                q = {'type': 'model', 'cls': 'MA', 'schema': q}
            cs.insert(rng.randint(0, len(cs)), {'type': 'function-before', 'schema': q, 'function': {'f': 'p1', 'b': 'const', 'v': M(*[(nm, I(1)) for nm in m])}})
        s = {'type': 'union', 'choices': [choice(c) for c in cs]}
        if rng.random() < .2:
            s = {'type': 'list', 'items_schema': s}

        def inp():
            pos = [rng.choice([I(1), I(1), I(2), S('3'), F(2.5)]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            kw = [(nm, rng.choice([I(1), S('x'), I(4)])) for nm in rng.sample(['a', 'b', 'c', 'z'], rng.choice([0, 0, 1, 2]))]
            v = ARGS(pos, kw or None)
            return L(v, v) if s['type'] == 'list' else v
        out.append(case(s, [val(inp(), strict=rng.choice(['none'] * 9 + ['true'])) for _ in range(10)]))
    return out


def p17(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'dataclass': 3, 'default': 2, 'int': 8, 'call': .05}

    def extra(g, s):
        c = s
        if c['type'] != 'dataclass':
            return []
        r, ops = g.rng, []
        for _ in range(2):
            m = instance(g, c)
            if g.p(.2) and c['cls'] == 'DA':
                g.heap[m['r'] - 1]['c'] = 'DA1'
                g.heap[m['r'] - 1]['d'] = [[S(n), I(1)] for n in ['a', 'b', 'c', 'd']]
            ops.append(val(m, strict=r.choice(['none', 'true', 'false'])))
        v = INST(c['cls'], [])
        g.heap.append(v)
        fs = [f for f in c['schema']['fields'] if f.get('init', True)]
        me = R(len(g.heap))
        ops.append(val(g.argsval([(f, not f.get('kw_only', True)) for f in fs], 'python', 'validation_alias', 0), self=me))
        return ops
    return positional(rng, 300 * k) + rooted(rng, 2200 * k, ['dataclass'], depth=2, weights=w, modes=('python', 'python', 'python', 'json', 'strings'), extra=extra, nops=6) + \
        rooted(rng, 300 * k, ['list', 'union', 'nullable'], depth=2, weights=dict(w, dataclass=12))


# ----------------------------------------------------------------------- P24
def p24(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'list': 4, 'dict': 3, 'typed-dict': 4, 'set': 1, 'tuple': 1, 'chain': 0, 'default': 1, 'call': 0}
    return rooted(rng, 2600 * k, ['list', 'dict', 'typed-dict', 'set', 'frozenset', 'tuple', 'union', 'nullable', 'default', 'model', 'json'],
                  depth=3, weights=w, p_bad=.25, partial=True, modes=('python', 'json', 'python'), aliases=.2)


# ----------------------------------------------------------------------- P25
def subpaths(s, path=()):
    """Places of subschemas inside a schema."""
    out = [path]
    for k in ('schema', 'items_schema', 'keys_schema', 'values_schema', 'lax_schema', 'strict_schema', 'json_schema', 'python_schema'):
        v = s.get(k)
        if isinstance(v, dict) and 'type' in v:
            out += subpaths(v, path + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                out += subpaths(x, path + (k, i))
    for i, x in enumerate(s.get('steps', ())):
        out += subpaths(x, path + ('steps', i))
    for k in ('choices', 'fields'):
        for i, x in enumerate(s.get(k, ())):
            if isinstance(x, dict) and 'schema' in x:
                out += subpaths(x['schema'], path + (k, i, 'schema'))
    return out


def at(s, path):
    for p in path:
        s = s[p]
    return s


def put(s, path, v):
    if not path:
        return v
    s = copy.deepcopy(s)
    q = at(s, path[:-1])
    q[path[-1]] = v
    return s


NODEF = ('typed-dict', 'model-fields', 'dataclass-args')


def rewrite(g, s, how):
    """A schema that means the same."""
    r = g.rng
    paths = subpaths(s)
    if how == 'def':
        # names of union choices show up in locations; the discriminator looks into tagged choices
        def ok(p):
            t = at(s, p)
            return t['type'] not in ('model-fields', 'dataclass-args', 'definition-ref', 'definitions') and not (
                len(p) > 2 and p[-3] == 'choices') and 'ref' not in t and not (p and at(s, p[:-1]).__class__ is dict and at(s, p[:-1]).get('type') in ('model', 'dataclass')) \
                and t['type'] != 'default' and not any('choices' == x for x in p) and not any('fields' == x and False for x in p)
        ps = [p for p in paths if ok(p)]
        if not ps:
            return None
        p = r.choice(ps)
        sub = dict(copy.deepcopy(at(s, p)), ref='Z1')
        main = put(s, p, {'type': 'definition-ref', 'schema_ref': 'Z1'})
        return {'type': 'definitions', 'schema': main, 'definitions': [sub]}
    if how == 'inline-ref':
        ps = [p for p in paths if at(s, p)['type'] not in ('definition-ref', 'definitions', 'model-fields', 'dataclass-args') and 'ref' not in at(s, p)]
        if not ps:
            return None
        p = r.choice(ps)
        return put(s, p, dict(copy.deepcopy(at(s, p)), ref='Z2'))
    if how == 'prebuilt':
        ps = [p for p in paths if p and at(s, p)['type'] in ('model', 'dataclass')]
        if not ps:
            return None
        p = r.choice(ps)
        cls = at(s, p)['cls']
        if sum(1 for q in paths if at(s, q).get('cls') == cls and at(s, q)['type'] in ('model', 'dataclass')) > 1 or 'definition-ref' in str(at(s, p)) \
                or 'generic_origin' in at(s, p) or at(s, p).get('schema', {}).get('type', '').startswith('function'):
            return None
        return put(s, p, dict(copy.deepcopy(at(s, p)), prebuilt=True))
    if how == 'single':
        p = r.choice([p for p in paths if at(s, p)['type'] not in ('model-fields', 'dataclass-args', 'default') and not (len(p) > 2 and p[-3] == 'choices')
                      and not (p and isinstance(at(s, p[:-1]), dict) and at(s, p[:-1]).get('type') in ('model', 'dataclass') and p[-1] == 'schema')] or [None])
        if p is None:
            return None
        return put(s, p, {'type': 'union', 'choices': [{'schema': copy.deepcopy(at(s, p))}]})
    return copy.deepcopy(s)


def p25(rng, tier):
    out = []
    n = 1500 if tier == 'quick' else 12000
    while len(out) < n:
        g = G(rng, weights={'call': .05, 'definitions': .6, 'model': 1.5, 'dataclass': 1, 'function-plain': .1}, depth=3, aliases=.2)
        g.part_off = False
        s = g.schema()
        how = rng.choice(['def', 'def', 'prebuilt', 'prebuilt', 'single', 'reduce', 'reduce', 'inline-ref'])
        if s['type'] == 'definitions' and how != 'reduce':
            how = 'reduce'
        s2 = rewrite(g, s, how)
        if s2 is None:
            continue
        ops = []
        for _ in range(4):
            o = g.op(s, ('python', 'python', 'json'))
            ops.append(o)
            ops.append(dict(copy.deepcopy(o), s=2, prop='same'))
            if how == 'def' and "'once'" in str(o):
                pass
        if any(o['op'] != 'validate' for o in ops):
            for o in ops:
                o.pop('prop', None)
        if how in ('def', 'single', 'prebuilt') and ('function' in str(s) or 'raise' in str(s)):
            for o in ops:
                o.pop('prop', None)
        cfg = g.topcfg()
        # a definition is built with the configuration around the definitions
        if how == 'def' and (len(cfg) > 1 or "'config'" in str(s)):
            for o in ops:
                o.pop('prop', None)
        c = finish(g, [{'v': s}, {'v': s2, **({'reduce': True} if how == 'reduce' else {})}], ops, cfg)
        c['how'] = how
        out.append(c)
    # a reference without a definition, and a definition given twice, are refused
    ref = {'type': 'definition-ref', 'schema_ref': 'R'}
    for bad in [ref, {'type': 'list', 'items_schema': ref}, {'type': 'definitions', 'schema': ref, 'definitions': []},
                {'type': 'definitions', 'schema': {'type': 'int'}, 'definitions': [{'type': 'list', 'items_schema': ref, 'ref': 'Q'}]},
                {'type': 'definitions', 'schema': ref, 'definitions': [{'type': 'int', 'ref': 'R'}, {'type': 'str', 'ref': 'R'}]},
                {'type': 'definitions', 'schema': ref, 'definitions': [{'type': 'int', 'ref': 'R'}, {'type': 'list', 'items_schema': {'type': 'str'}, 'ref': 'R'}]},
                {'type': 'union', 'choices': [choice(ref), choice({'type': 'int'})]},
                {'type': 'nullable', 'schema': ref}, {'type': 'typed-dict', 'fields': [{'name': 'a', 'schema': ref}]}]:
        out.append(case(bad, [], bad=True))
    return out


# ----------------------------------------------------------------------- P26
def p26(rng, tier):
    k = 1 if tier == 'quick' else 8
    w = {'chain': 2, 'lax-or-strict': 2, 'json-or-python': 2, 'nullable': 2, 'custom-error': 2, 'json': 1.5, 'int': 8, 'call': .05}
    return rooted(rng, 2600 * k, ['chain', 'lax-or-strict', 'json-or-python', 'nullable', 'custom-error', 'json', 'list', 'union'], depth=3, weights=w)


# ----------------------------------------------------------------------- P27
def p27(rng, tier):
    k = 1 if tier == 'quick' else 8
    out = rooted(rng, 1800 * k, CONT + ['typed-dict', 'model', 'dataclass', 'arguments', 'call', 'union', 'tagged-union', 'function-wrap', 'json', 'chain'],
                 depth=3, p_cell=.9, p_bad=.1, weights={'any': 3, 'default': 1.5, 'call': .3})
    for c in out:
        # the same inputs again, after their results were overwritten
        c['ops'] = c['ops'] + [copy.deepcopy(o) for o in c['ops'][:4]]
    return scribbled(out, rng, .8)


# ----------------------------------------------------------------------- P29
LITS = [I(1), I(0), I(2), I(10**20), S('a'), S('1'), S(''), B(True), B(False), N, F(1.5), F(1.0), F(0.0), F(float('inf')), BY('a'), E('EStr', 'X'),
        E('EInts', 'Q'), E('EInt', 'ONE'), E('EPlain', 'A'), CLS('int'), T(I(1))]
LINPUTS = LITS + [F(2.0), F(-0.0), {'t': 'intsub', 'i': 1}, {'t': 'strsub', 's': 'a'}, E('EInt', 'TWO'), E('EPlain', 'B'), D('1'), D('1.5'), L(I(1)), M(),
                  S('x'), S('yes'), S('b'), I(7), S('true'), S('True'), F(2.5), I(5), F(.5), S('X'), S('A'), BY('x'), E('EFall', 'A'), CLS('str'), OBJ]


def p29(rng, tier):
    out = []
    k = 1 if tier == 'quick' else 6
    for a in LITS:
        for b in LITS:
            if a is b and rng.random() < .5:
                ex = [a]
            else:
                ex = [a, b] if a != b else [a]
            s = {'type': 'literal', 'expected': copy.deepcopy(ex)}
            ops = []
            for x in rng.sample(LINPUTS, 8) + ex:
                m = rng.choice(['python', 'python', 'json', 'strings'])
                if m == 'json' and not jsonable(x) or m == 'strings' and x['t'] != 'str':
                    m = 'python'
                ops.append(val(copy.deepcopy(x), m, strict=rng.choice(['none', 'none', 'true'])))
            out.append(case(s, ops))
    for _ in range(300 * k):
        ex = []
        for x in rng.sample(LITS, rng.randint(1, 6)):
            ex.append(copy.deepcopy(x))
        s = {'type': 'literal', 'expected': ex}
        out.append(case(s, [val(copy.deepcopy(x), strict=rng.choice(['none', 'none', 'true'])) for x in rng.sample(LINPUTS, 10)]))
    for c in ('EPlain', 'EInts', 'EStr', 'EInt', 'EFall', 'EFlo'):
        for st in (None, True, False):
            for sub in (None, 'drop'):
                s = {'type': 'enum', 'cls': c}
                if st is not None:
                    s['strict'] = st
                for m in ('python', 'json', 'strings'):
                    xs = [x for x in LINPUTS + [E('EInts', 'P'), E('EStr', 'N'), E('EFlo', 'H'), E('EFall', 'B'), S('a'), S('zz'), I(5), F(7.0), S('0'), S('2')]
                          if m == 'python' or m == 'json' and jsonable(x) or x['t'] == 'str']
                    for i in range(0, len(xs), 20):
                        out.append(case(s, [val(copy.deepcopy(x), m, strict=rng.choice(['none', 'true', 'false'])) for x in xs[i:i + 20]]))
    out += rooted(rng, 500 * k, ['list', 'union', 'typed-dict', 'dict', 'nullable', 'tagged-union'], depth=1, weights={'literal': 12, 'enum': 8, 'int': 1, 'str': 1})
    return out


# ----------------------------------------------------------------------- P31
def unreadable(rng, n):
    """Attributes that cannot be read, on the ways to a field."""
    out = []
    K = ['a', 'b', 'b', 'c']
    for _ in range(n):
        def path():
            p = [{'s': rng.choice(K)}] + [rng.choice([{'s': rng.choice(K)}] * 4 + [{'n': rng.choice([0, -1])}]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            return p

        def alias():
            k = rng.random()
            if k < .2:
                return {'k': 'str', 's': rng.choice(K)}
            if k < .4:
                return {'k': 'path', 'p': path()}
            return {'k': 'choices', 'c': [path() for _ in range(rng.choice([2, 2, 3]))]}
        fs = []
        for nm in rng.sample(['a', 'b', 'c', 'f'], rng.randint(1, 3)):
            s = {'type': rng.choice(['int', 'any', 'any', 'str'])}
            if rng.random() < .4:
                s = {'type': 'default', 'schema': s, 'default': I(0)}
            fs.append({'name': nm, 'schema': s, **({'validation_alias': alias()} if rng.random() < .8 else {})})
        s = {'type': 'model-fields', 'fields': fs, 'from_attributes': True}
        if rng.random() < .3:
            s['extra_behavior'] = rng.choice(['allow', 'forbid', 'ignore'])
        if rng.random() < .7:
            s = {'type': 'model', 'cls': 'MA', 'schema': s}
        if rng.random() < .15:
            s = {'type': 'tagged-union', 'from_attributes': True, 'discriminator': alias(), 'choices': [{'tag': I(1), 'schema': s}, {'tag': S('x'), 'schema': {'type': 'any'}}]}

        def inp(d):
            k = rng.random()
            if not d or k < .25:
                return rng.choice([I(1), S('x'), N])
            if k < .4:
                return M(*[(nm, inp(d - 1)) for nm in rng.sample(['a', 'b', 'c'], rng.randint(0, 2))])
            if k < .5:
                return rng.choice([L, T])(inp(d - 1), inp(d - 1))
            return obj(d)

        def obj(d):
            c = rng.choice(['AttrBad', 'AttrBad', 'AttrObj'])
            return INST(c, [(nm, inp(d - 1)) for nm in rng.sample(['a', 'c'] + ['b'] * (c != 'AttrBad'), rng.randint(1, 2))])

        def top():
            k = rng.random()
            if k < .8:
                return obj(3)
            if k < .95:
                return T(obj(3), M(*[(nm, inp(1)) for nm in rng.sample(['a', 'b', 'c'], rng.randint(0, 2))]))
            return inp(2)
        cfg = {'has': True, 'loc_by_alias': False} if rng.random() < .3 else None
        if rng.random() < .3:
            cfg = dict(cfg or {'has': True}, validate_by_name=True)
        out.append(case(s, [val(top(), by_name=rng.choice(['none', 'none', 'true'])) for _ in range(8)], **({'cfg': [cfg]} if cfg else {})))
    return out


def p31(rng, tier):
    out = unreadable(rng, 300 if tier == 'quick' else 2400)
    n = 2200 if tier == 'quick' else 16000
    for _ in range(n):
        g = G(rng, weights=dict(PLAINW, **{'model': 3, 'typed-dict': 1, 'tagged-union': .6, 'default': 1.5}), depth=2, aliases=.4)
        g.part_off = False
        s = g.make(rng.choice(['model', 'model', 'model', 'list', 'union', 'tagged-union', 'nullable', 'dataclass']), 0)
        cfg = g.topcfg()
        if g.p(.5):
            cfg['from_attributes'] = True
        for q in (s, s.get('schema', {})):
            if q.get('type') == 'model' and g.p(.6):
                q['config'] = dict(q.get('config', {}), from_attributes=g.p(.85))
        ops = []
        for _ in range(8):
            o = g.op(s, ('python',))
            o['op'] = 'validate'
            o['from_attributes'] = rng.choice(['none', 'true', 'true', 'false'])
            x = o['x']
            y = g.heap[x['r'] - 1] if x['t'] == 'ref' else x
            if g.p(.7) and y['t'] == 'dict':
                # the same content as attributes
                d = [(k['s'], v) for k, v in y['d'] if k['t'] == 'str' and k['s'].isalpha()]
                o['x'] = INST(rng.choice(['AttrObj', 'AttrSub', 'AttrObj', 'AttrBad', 'DA', 'MB', 'ME']), d)
                if o['x']['c'] == 'AttrBad':
                    # not where user functions look at attributes
                    if "'k': 'fn'" in str(s):
                        o['x']['c'] = 'AttrObj'
                    else:
                        o['x']['d'] = [e for e in o['x']['d'] if e[0]['s'] != 'b']
                elif g.p(.2):
                    # something on a path cannot be read
                    for e in o['x']['d']:
                        if g.p(.4) and e[1]['t'] in ('dict', 'int', 'str'):
                            e[1] = INST('AttrBad', [(k, I(1)) for k in rng.sample(['a', 'c', 'd', 'x'], 2)])
                if o['x']['c'] == 'DA':
                    o['x']['d'] = [e for e in o['x']['d'] if e[0]['s'] in KEYS]
                if o['x']['c'] in ('MB', 'ME'):
                    o['x'].update(hf=True, fs=sorted(k for k, _ in d))
                if g.p(.3):
                    o['x'] = g.cell(o['x'])
            ops.append(o)
        out.append(finish(g, s, ops, cfg))
    return out


# ----------------------------------------------------------------------- P03
def p03(rng, tier):
    import gen_scalar
    out = gen_scalar.p03_scalar(rng, tier)
    k = 1 if tier == 'quick' else 8
    w = {t: 0 for t in ('function-before', 'function-after', 'function-wrap', 'function-plain', 'call', 'chain', 'lax-or-strict', 'json-or-python', 'union',
                        'tagged-union', 'default', 'custom-error', 'definitions', 'arguments', 'json', 'literal', 'is-instance', 'callable', 'model', 'dataclass', 'typed-dict', 'enum')}
    more = rooted(rng, 900 * k, CONT + ['nullable'], depth=2, weights=w, p_strict=.3)
    for c in more:
        for o in c['ops']:
            if o['op'] == 'validate':
                o['prop'] = 'strictlax'
    more += rooted(rng, 700 * k, ['typed-dict', 'model', 'dataclass', 'list', 'tuple', 'lax-or-strict', 'union', 'definitions', 'arguments', 'json'], depth=3, p_strict=.35,
                   weights={'lax-or-strict': 2})
    return out + more
