"""Cases for the round-trip property: validate, serialize, validate again."""
from __future__ import annotations

from values import *
from gen_nested import G, KEYS, jsonable

LEAF = {'int': 4, 'str': 3, 'float': 2, 'bool': 1.5, 'none': .4, 'bytes': 1, 'literal': 1, 'enum': 1, 'any': .6}
COMP = {'list': 1.5, 'set': .7, 'frozenset': .6, 'tuple': 1.5, 'dict': 1.5, 'nullable': 1, 'model': 2, 'typed-dict': 1.5,
        'dataclass': 1.5, 'definitions': .6, 'json-or-python': .2, 'lax-or-strict': .2, 'custom-error': .2}


class RG(G):
    """Schemas whose output form is an accepted input form."""
    def __init__(self, rng, depth=3, **kw):
        super().__init__(rng, weights=dict(LEAF, **COMP), only=list(LEAF) + list(COMP), depth=depth, p_strict=0, **kw)
        self.w = dict(LEAF, **COMP)
        self.kinds = set()
        self.al = self.inst = False

    def schema(self, d=0, ctx=None):
        if self.scope and d > 0 and self.p(.2):
            return {'type': 'nullable', 'schema': {'type': 'definition-ref', 'schema_ref': self.rng.choice(self.scope)}}
        w = dict(LEAF) if d >= self.maxd else dict(COMP) if d == 0 else dict(LEAF, **COMP)
        return self.make(self.pick(w), d)

    def make(self, t, d):
        self.kinds.add(t)
        return super().make(t, d)

    def junk(self, mode):
        return self.rng.choice([I(1), S('1'), B(True), N, F(1.5), L(I(1), S('x')), M(('a', N)), M(), L()])

    def sizes(self, s, hi=3):
        return super().sizes(s, hi) if self.p(.3) else s

    def s_decimal(self, d):
        return {'type': 'decimal'}

    def s_literal(self, d):
        pool = [I(2), S('a'), S('b'), S('1'), B(True), I(0), I(7)]
        return {'type': 'literal', 'expected': self.rng.sample(pool, self.rng.randint(1, 3))}

    def s_enum(self, d):
        return {'type': 'enum', 'cls': self.rng.choice(['EPlain', 'EInts', 'EStr', 'EInt', 'EFlo'])}

    def s_set(self, d):
        s = {'type': 'set', 'items_schema': self.make(self.pick({'int': 3, 'str': 3, 'float': 1, 'bool': .5, 'enum': 1, 'bytes': 1}), self.maxd)}
        if self.p(.2):
            s['items_schema'] = {'type': 'tuple', 'items_schema': [s['items_schema']], 'variadic_item_index': 0}
        return self.sizes(s)

    def s_list(self, d):
        return self.sizes({'type': 'list', 'items_schema': self.schema(d + 1)})

    def s_tuple(self, d):
        s = super().s_tuple(d)
        return s

    def s_dict(self, d):
        k = self.make(self.pick({'str': 3, 'int': 2, 'bool': .3, 'enum': .5, 'bytes': .5}), self.maxd)
        if k['type'] == 'enum':
            k['cls'] = 'EStr'     # JSON keys are strings: other members are not found by them
        return self.sizes({'type': 'dict', 'keys_schema': k,
                           'values_schema': self.schema(d + 1)})

    def s_lax_or_strict(self, d):
        x = self.schema(d + 1)
        return {'type': 'lax-or-strict', 'lax_schema': x, 'strict_schema': x}

    def s_json_or_python(self, d):
        x = self.schema(d + 1)
        return {'type': 'json-or-python', 'json_schema': x, 'python_schema': x}

    def s_custom_error(self, d):
        return {'type': 'custom-error', 'schema': self.schema(d + 1), 'custom_error_type': 'my_type', 'custom_error_message': 'my message'}

    def fields(self, d, names=KEYS, lo=0):
        r = self.rng
        out = []
        for n in r.sample(names, r.randint(max(lo, 1), len(names))):
            f = {'name': n, 'schema': self.schema(d + 1)}
            if self.p(.4) and f['schema']['type'] != 'any':
                x = self.value(f['schema'], 'python', plain=True)
                f['schema'] = {'type': 'default', 'schema': f['schema'], 'default': x, 'validate_default': True}
                if self.p(.3):
                    self.nf += 1
                    f['schema'].pop('default')
                    f['schema']['default_factory'] = {'f': 'g%d' % self.nf, 'b': 'const', 'v': x}
            if self.al:
                a = r.choice(['A', 'B', 'C']) + n
                f['validation_alias'] = {'k': 'str', 's': a}
                f['serialization_alias'] = a
            out.append(f)
        return out

    def s_typed_dict(self, d):
        fs = self.fields(d)
        for f in fs:
            if self.p(.25) or f['schema']['type'] == 'default':
                f['required'] = False
        s = {'type': 'typed-dict', 'fields': fs}
        return self.extra(s)

    def extra(self, s, dc=False):
        r = self.rng
        if self.p(.3):
            s.setdefault('config', {})['extra_fields_behavior'] = r.choice(['ignore', 'forbid'] if dc or self.al else ['allow', 'ignore', 'forbid'])
        return s

    def s_model(self, d, cls=None):
        r = self.rng
        cls = cls or r.choice(['MA', 'MB', 'MC'])
        if self.p(.1):
            return {'type': 'model', 'cls': cls, 'schema': self.schema(d + 1), 'root_model': True}
        s = {'type': 'model', 'cls': cls, 'schema': {'type': 'model-fields', 'fields': self.fields(d)}}
        if self.p(.2) and not self.al:
            s['revalidate_instances'] = r.choice(['always', 'never'])
        return self.extra(s)

    def s_dataclass(self, d, cls=None):
        r = self.rng
        cls = cls or r.choice(['DA', 'DB', 'DS'])
        fs = self.fields(d, KEYS if cls != 'DB' else KEYS[:2], lo=3 if cls == 'DS' else 2)
        for f in fs:
            if self.p(.3):
                f['kw_only'] = self.p(.5)
        s = {'type': 'dataclass', 'cls': cls, 'schema': {'type': 'dataclass-args', 'dataclass_name': 'Dc', 'fields': fs}, 'fields': [f['name'] for f in fs]}
        if cls == 'DS':
            s['slots'] = True
        return self.extra(s, True)

    def val(self, s, mode, plain, depth):
        r = self.rng
        if s['type'] == 'decimal':
            x = r.choice(['1', '1.5', '-2.50', '0', '100', '0.1'])
            return D(x) if mode == 'python' and self.p(.7) else S(x)
        if s['type'] == 'any':
            return r.choice([I(1), S('a'), B(True), N, F(1.5), L(I(1), S('x')), M(('a', N))])
        if s['type'] in ('model', 'dataclass') and not s.get('root_model') and (mode != 'python' or plain or self.p(.85)):
            return {'t': 'dict', 'd': self.fvals(s['schema']['fields'], mode, plain, depth + 1)}
        if s.get('root_model') and (mode != 'python' or plain or self.p(.85)):
            return self.value(s['schema'], mode, plain, depth + 1)
        v = super().val(s, mode, plain, depth)
        if s['type'] in ('model', 'dataclass'):
            self.inst = True     # instances are taken as they are: what they hold need not be valid
        return v


def rt(rng, n, nops=5, prop=True, **kw):
    out = []
    for _ in range(n):
        g = RG(rng, p_bad=.03, **kw)
        g.al = g.p(.3)
        s = g.schema(0)
        cfg = {'ser_json_inf_nan': rng.choice(['constants', 'strings'])} if g.p(.3) else {}
        ops = []
        for _ in range(nops):
            mode = rng.choice(['python', 'python', 'json'])
            g.inst = False
            for _ in range(6):
                x = g.value(s, mode)
                if mode != 'json' or jsonable(x):
                    break
            else:
                continue
            via = rng.choice(['python', 'json', 'jsonpy'])
            so = {'op': 'to_json' if via == 'json' else 'to_python', 's': 1, 'rt': True, 'by_alias': 'true' if g.al else rng.choice(['none', 'false'])}
            if via != 'json':
                so['mode'] = 'python' if via == 'python' else 'json'
            if g.p(.3):
                so['eu'] = True
            elif g.p(.2):
                so['ed'] = True
            o = {'op': 'roundtrip', 's': 1, 'mode': mode, 'x': x, 'ser': so}
            if g.p(.2) and (via == 'json' or via == 'python' and not g.kinds & {'model', 'dataclass'}):
                o['strict'] = 'true'
            if via != 'python' and g.kinds & {'set', 'frozenset'}:
                o['noto'] = True
            if prop and not g.inst and "'inst'" not in repr(x):
                # (with aliases a typed dict comes out under other keys than it is read from)
                o['prop'] = 'roundtrip' if g.al and 'typed-dict' in g.kinds else 'both'
            ops.append(o)
        c = case([{'v': s, 'ser': True}], ops, heap=g.heap, cfg=cfg or None)
        out.append(c)
    return out


def p23(rng, tier):
    k = 1 if tier == 'quick' else 8
    return rt(rng, 2000 * k)
