"""Cases for the serialization properties."""
from __future__ import annotations
import copy
import json
import random

from values import *
from gen_nested import G, KEYS, MODEL_CLASSES, DC_CLASSES, ENUM_VALUES, INTS

BYTES = [b'', b'a', b'ab', b'x>?~', b'\xff\xfe', b'\xfb\xef\xbe', '\u00e9\u4e2d'.encode(), b'1', b'q"\\\n', b'\x00\x1f']
STRS = ['a', 'b', '1', '2', 'abc', '', '1.5', 'q"\\\n', '\u00e9\u4e2d', '\x00\x1f', 'a\tb', '/', '__all__', '-1', 'x\u2028', '\x7f']
FLOATS = [0.0, 1.0, 1.5, -2.25, 100.0, 0.1, 1e16, 1e22, 1e-7, 123456.789]
SPECIAL = [{'t': 'fsp', 'k': k} for k in ('inf', '-inf', 'nan', '-0.0')]
DECS = ['1', '1.5', '-2.50', '0', '100', '0.1']
LEAF = {'any': 3, 'none': .6, 'int': 3, 'float': 2, 'bool': 1, 'str': 3, 'bytes': 1.2, 'decimal': .7, 'literal': 1, 'enum': 1}
COMP = {'nullable': 1, 'default': .8, 'list': 1.6, 'set': .7, 'frozenset': .5, 'tuple': 1.6, 'dict': 1.6, 'union': 1.2,
        'tagged-union': .7, 'model': 2, 'typed-dict': 1.4, 'dataclass': 1.4, 'json': .4, 'json-or-python': .4, 'chain': .2,
        'custom-error': .2, 'function-before': .2, 'function-plain': .1, 'lax-or-strict': .2, 'generator': .15, 'call': .05}
ELL = {'t': 'ell'}
SIMPLE = ['int', 'str', 'bool', 'float', 'none', 'any', 'bytes']


def SET(*l):
    return {'t': 'set', 'l': list(l)}


class SG(G):
    def __init__(self, rng, depth=3, p_fn=.08, p_ser=.06, p_bad=.15, p_cell=.25, leaf=None, comp=None, p_flt=.12, fn_raise=.3,
                 special=.15, p_schema_flt=.15):
        super().__init__(rng, depth=depth, p_bad=p_bad, p_cell=p_cell, fn_raise=fn_raise)
        self.leaf, self.comp = dict(LEAF), dict(COMP)
        self.leaf.update(leaf or {})
        self.comp.update(comp or {})
        self.p_fn, self.p_ser, self.p_flt, self.special, self.p_sf = p_fn, p_ser, p_flt, special, p_schema_flt
        self.infield = 0
        self.gens = False
        self.unions = 0
        self.attached = {}

    # ------------------------------------------------------------------ schemas
    def schema(self, d=0, ctx=None):
        if self.scope and d > 0 and self.p(.25):
            return {'type': 'definition-ref', 'schema_ref': self.rng.choice(self.scope)}
        w = dict(self.leaf)
        if d < self.maxd:
            w.update(self.comp)
            if d == 0:
                w = dict(self.comp)
        if self.unions:
            w['generator'] = 0
        return self.make(self.pick(w), d)

    def make(self, t, d):
        s = getattr(self, 'z_' + t.replace('-', '_'), lambda d: {'type': t})(d)
        return self.decorate(s, d)

    def decorate(self, s, d):
        if 'serialization' in s or s['type'] in ('definition-ref',):
            return s
        if self.p(self.p_fn):
            s['serialization'] = self.sfn(s, d)
        elif self.p(self.p_ser):
            r = self.rng
            x = r.random()
            if x < .35:
                s['serialization'] = {'type': 'to-string'}
            elif x < .6:
                s['serialization'] = {'type': 'format', 'formatting_string': r.choice(['s', 'd', ''])}
            else:
                s['serialization'] = {'type': r.choice(SIMPLE)}
            if s['serialization']['type'] in ('to-string', 'format') and self.p(.6):
                s['serialization']['when_used'] = r.choice(['always', 'json', 'unless-none', 'json-unless-none'])
        return s

    def sfn(self, s, d):
        r = self.rng
        self.nf += 1
        wrap = self.p(.5)
        f = {'f': 'f%d' % self.nf}
        v = {'type': 'function-wrap' if wrap else 'function-plain', 'function': f}
        if self.p(self.fn_raise):
            f['b'] = r.choice(['raise_unexp', 'raise_unexp', 'raise_value', 'raise_ser', 'raise_other', 'raise_omit'])
        elif wrap:
            f['b'] = r.choice(['call', 'call', 'call', 'call_key', 'call_const', 'call_list', 'catch', 'catch', 'twice', 'id', 'const'])
        else:
            f['b'] = r.choice(['id', 'id', 'const', 'wrap_list'])
        if f['b'] in ('const', 'catch'):
            f['v'] = self.scalar()
        if f['b'] == 'call_const':
            f['v'] = self.sval({k: x for k, x in s.items() if k != 'serialization'}, 2) if self.p(.6) and not self.scope else self.scalar()
            if "'set'" in repr(f['v']) or "'frozenset'" in repr(f['v']):
                f['v'] = self.scalar()
        if f['b'] == 'call_key':
            f['key'] = r.choice([I(0), I(1), S('a'), S('b'), I(-1)])
        if self.p(.5):
            v['info_arg'] = True
        if self.infield and self.p(.5):
            v['is_field_serializer'] = True
        elif self.p(.03):
            v['is_field_serializer'] = True
        if self.p(.4):
            v['return_schema'] = self.make(self.pick({'int': 1, 'str': 1, 'any': 1, 'list': 1, 'nullable': 1}), self.maxd)
        if self.p(.4):
            v['when_used'] = r.choice(['always', 'json', 'unless-none', 'json-unless-none'])
        if wrap and self.p(.15):
            v['schema'] = self.make(self.pick({'int': 1, 'str': 1, 'any': 1, 'list': 1}), self.maxd)
        return v

    def sflt(self, s, seq):
        """include/exclude in the schema itself"""
        r = self.rng
        if self.p(self.p_sf):
            z = {'type': 'include-exclude-sequence' if seq else 'include-exclude-dict'}
            pool = [I(0), I(1), I(2)] if seq else [S('a'), S('b'), I(1), S('1')]
            if self.p(.6):
                z['include'] = r.sample(pool, r.randint(0, 3))
            if self.p(.6):
                z['exclude'] = r.sample(pool, r.randint(0, 2))
            s['serialization'] = z
        return s

    def z_literal(self, d):
        pool = [I(1), I(2), S('a'), S('b'), S('1'), B(True), B(False), N, F(1.5), BY('a'), E('EStr', 'X'), E('EInts', 'Q'), E('EInt', 'TWO'), I(10**12)]
        return {'type': 'literal', 'expected': self.rng.sample(pool, self.rng.randint(1, 4))}

    def z_enum(self, d):
        return {'type': 'enum', 'cls': self.rng.choice([c for c in ENUM_VALUES])}

    def z_nullable(self, d):
        return {'type': 'nullable', 'schema': self.schema(d + 1)}

    def z_default(self, d):
        r = self.rng
        s = {'type': 'default', 'schema': self.schema(d + 1)}
        x = r.random()
        if x < .7:
            s['default'] = self.sval(s['schema'], 2, plain=True) if self.p(.6) and not self.scope else self.scalar()
        else:
            self.nf += 1
            f = {'f': 'g%d' % self.nf, 'b': r.choice(['new_list', 'const', 'id'])}
            if f['b'] == 'const':
                f['v'] = self.scalar()
            if self.p(.15):
                f['b'] = r.choice(['raise_value', 'raise_other'])
            if self.p(.15):
                f['data'] = True
            s['default_factory'] = f
        return s

    def z_list(self, d):
        s = {'type': 'list'}
        if self.p(.85):
            s['items_schema'] = self.schema(d + 1)
        return self.sflt(s, True)

    def z_set(self, d):
        s = {'type': 'set'}
        if self.p(.8):
            s['items_schema'] = self.make(self.pick({'int': 2, 'str': 2, 'any': 1, 'union': 1, 'tuple': 1.5, 'nullable': .5}), max(d + 1, self.maxd - 1))
        return s

    def z_frozenset(self, d):
        return dict(self.z_set(d), type='frozenset')

    def z_generator(self, d):
        s = {'type': 'generator'}
        if self.p(.8):
            s['items_schema'] = self.schema(d + 1)
        return self.sflt(s, True)

    def z_tuple(self, d):
        n = self.rng.randint(0, 3)
        s = {'type': 'tuple', 'items_schema': [self.schema(d + 1) for _ in range(n)]}
        if n and self.p(.45):
            s['variadic_item_index'] = self.rng.randrange(n)
        return self.sflt(s, True)

    def z_dict(self, d):
        s = {'type': 'dict'}
        if self.p(.8):
            k = self.pick({'str': 3, 'int': 2, 'any': 1, 'literal': .5, 'bool': .3, 'float': .4, 'enum': .5, 'bytes': .4, 'decimal': .2, 'nullable': .4,
                           'tuple': .5, 'union': .5, 'none': .1})
            s['keys_schema'] = self.make(k, self.maxd - 1 if k in ('tuple', 'union', 'nullable') else self.maxd)
        if self.p(.8):
            s['values_schema'] = self.schema(d + 1)
        return self.sflt(s, False)

    def z_union(self, d):
        self.unions += 1
        n = self.rng.choice([1, 2, 2, 2, 3, 3])
        s = {'type': 'union', 'choices': [{'schema': self.schema(d + 1)} for _ in range(n)]}
        self.unions -= 1
        return s

    def z_tagged_union(self, d):
        r = self.rng
        tags = r.sample([S('a'), S('b'), I(1), S('2')], r.randint(1, 3))
        name = r.choice(KEYS)
        self.unions += 1
        ch = []
        used = set()
        for tg in tags:
            s = self.make(r.choice(['typed-dict', 'model', 'model', 'dataclass']), d + 1)
            while s.get('root_model') or s.get('cls') in used or s['schema' if 'cls' in s else 'type'] is None:
                s = self.make('model', d + 1)
            used.add(s.get('cls'))
            s.pop('serialization', None)
            fs = self.fields_of(s)
            fs[:] = [f for f in fs if f['name'] != name]
            fs.insert(0, {'name': name, 'schema': {'type': 'any'} if self.p(.5) else {'type': 'literal', 'expected': [tg]}})
            self.sync(s)
            ch.append({'tag': tg, 'schema': s})
        self.unions -= 1
        s = {'type': 'tagged-union', 'choices': ch}
        x = r.random()
        if x < .6:
            s['discriminator'] = {'k': 'str', 's': name}
        elif x < .75:
            s['discriminator'] = {'k': 'choices', 'c': [[{'s': 'x'}, {'s': 'y'}], [{'s': name}]]}
        else:
            self.nf += 1
            s['discriminator'] = r.choice([{'k': 'fn', 'f': 'd%d' % self.nf, 'b': 'key', 'key': name}] * 3 + [
                {'k': 'fn', 'f': 'd%d' % self.nf, 'b': 'const', 'v': r.choice(tags + [N, S('zz')])},
                {'k': 'fn', 'f': 'd%d' % self.nf, 'b': 'raise_value'}])
        return s

    def zfields(self, d, names=KEYS, lo=0):
        r = self.rng
        out = []
        for n in r.sample(names, r.randint(lo, len(names))):
            self.infield += 1
            f = {'name': n, 'schema': self.make('default', d + 1) if self.p(.3) else self.schema(d + 1)}
            self.infield -= 1
            if self.p(.3):
                f['serialization_alias'] = r.choice(['A', 'B', 'x', 'a', 'b'])
            if self.p(.08):
                f['serialization_exclude'] = True
            out.append(f)
        return out

    def computed(self, s):
        r = self.rng
        if self.p(.8):
            names = [n for n in r.sample(['cp_a', 'cp_list', 'cp_none', 'cp_a'], r.randint(1, 3))]
            if self.p(.08):
                names.append('cp_raise')
            s['computed_fields'] = []
            for n in dict.fromkeys(names):
                c = {'property_name': n, 'return_schema': self.make(self.pick({'any': 2, 'int': 2, 'list': 2, 'nullable': 1, 'str': .5}), self.maxd)}
                if self.p(.4):
                    c['alias'] = r.choice(['CA', 'a', 'x'])
                s['computed_fields'].append(c)
        return s

    def z_typed_dict(self, d):
        fs = self.zfields(d)
        for f in fs:
            if self.p(.3):
                f['required'] = self.p(.4)
        s = {'type': 'typed-dict', 'fields': fs}
        if self.p(.15):
            s['total'] = False
        if self.p(.3):
            s['extra_behavior'] = self.rng.choice(['allow', 'allow', 'ignore', 'forbid'])
            if s['extra_behavior'] == 'allow' and self.p(.4):
                s['extras_schema'] = self.make(self.pick({'int': 2, 'str': 1, 'any': .5}), self.maxd)
        if self.p(.25):
            s['config'] = self.scfg()
            if 'extra_behavior' not in s and self.p(.4):
                s['config']['extra_fields_behavior'] = self.rng.choice(['allow', 'ignore'])
        return s

    def z_model(self, d, cls=None):
        r = self.rng
        cls = cls or r.choice(MODEL_CLASSES + ['MCF', 'MA1'])
        s = {'type': 'model', 'cls': cls}
        if self.p(.1):
            s['schema'] = self.schema(d + 1)
            s['root_model'] = True
            return s
        inner = {'type': 'model-fields', 'fields': self.zfields(d)}
        if cls == 'MCF':
            self.computed(inner)
        cfg = {}
        if self.p(.3):
            cfg['extra_fields_behavior'] = r.choice(['allow', 'allow', 'ignore'])
            if cfg['extra_fields_behavior'] == 'allow' and self.p(.4):
                inner['extras_schema'] = self.make(self.pick({'int': 2, 'str': 1, 'any': .5}), self.maxd)
        if self.p(.15):
            cfg['serialize_by_alias'] = self.p(.7)
        if self.p(.1):
            cfg['ser_json_bytes'] = r.choice(['utf8', 'hex', 'base64'])
        if self.p(.1):
            cfg['ser_json_inf_nan'] = r.choice(['null', 'constants', 'strings'])
        s['schema'] = inner
        if self.p(.1):
            s['schema'] = {'type': 'function-after', 'schema': inner, 'function': {'f': 'v', 'b': 'id'}}
        if cfg:
            s['config'] = cfg
        return s

    def z_dataclass(self, d, cls=None):
        cls = cls or self.rng.choice(['DA', 'DB', 'DS', 'DCF', 'DA1'])
        names = {'DB': KEYS[:2]}.get(cls, KEYS)
        inner = {'type': 'dataclass-args', 'dataclass_name': 'Dc', 'fields': self.zfields(d, names, lo=1)}
        if cls == 'DCF':
            self.computed(inner)
        s = {'type': 'dataclass', 'cls': cls, 'schema': inner, 'fields': [f['name'] for f in inner['fields']]}
        if cls == 'DS':
            s['slots'] = True
        if self.p(.12):
            s['config'] = {'serialize_by_alias': self.p(.7)}
        return s

    def z_json(self, d):
        s = {'type': 'json'}
        if self.p(.85):
            s['schema'] = self.schema(d + 1)
        return s

    def z_json_or_python(self, d):
        return {'type': 'json-or-python', 'json_schema': self.schema(d + 1), 'python_schema': self.schema(d + 1)}

    def z_chain(self, d):
        return {'type': 'chain', 'steps': [{'type': 'str'}, self.schema(d + 1)]}

    def z_custom_error(self, d):
        return {'type': 'custom-error', 'schema': self.schema(d + 1), 'custom_error_type': 'x', 'custom_error_message': 'y'}

    def z_function_before(self, d):
        self.nf += 1
        t = self.rng.choice(['function-before', 'function-after', 'function-wrap'])
        return {'type': t, 'schema': self.schema(d + 1), 'function': {'f': 'v%d' % self.nf, 'b': 'call' if t == 'function-wrap' else 'id'}}

    def z_function_plain(self, d):
        self.nf += 1
        return {'type': 'function-plain', 'function': {'f': 'v%d' % self.nf, 'b': 'id'}}

    def z_lax_or_strict(self, d):
        return {'type': 'lax-or-strict', 'lax_schema': self.schema(d + 1), 'strict_schema': self.schema(d + 1)}

    def z_call(self, d):
        s = {'type': 'call', 'arguments_schema': {'type': 'arguments', 'arguments_list': []}, 'function': {'f': 'k', 'b': 'pack'}}
        if self.p(.6):
            s['return_schema'] = self.schema(d + 1)
        return s

    # ------------------------------------------------------------------- values
    def scalar(self):
        r = self.rng
        return r.choice([I(r.choice(INTS)), I(r.choice(INTS)), S(r.choice(STRS)), S(r.choice(STRS)), B(True), B(False), N, F(r.choice(FLOATS))])

    def anyv(self, d=0):
        r = self.rng
        x = r.random()
        if x < .5 or d > 2:
            if self.p(.3):
                return r.choice([I(10**12), I(-2**70), BY(r.choice(BYTES)), D(r.choice(DECS)), {'t': 'strsub', 's': 'sub'}, {'t': 'intsub', 'i': 7},
                                 {'t': 'floatsub', 'q': 6}, E('EStr', 'Y'), E('EInt', 'TWO'), E('EPlain', 'B'), E('EFlo', 'H'), BA(r.choice(BYTES))] +
                                (SPECIAL if self.p(self.special * 2) else []))
            return self.scalar()
        k = r.choice(['list', 'tuple', 'dict', 'dict', 'set', 'frozenset', 'inst', 'odd'])
        n = r.randint(0, 3)
        if k == 'list':
            return self.mc(L(*[self.anyv(d + 1) for _ in range(n)]))
        if k == 'tuple':
            return T(*[self.anyv(d + 1) for _ in range(n)])
        if k in ('set', 'frozenset'):
            items = self.dedup([i for i in ([self.scalar() for _ in range(n)] + ([T(I(1), S('x')), T(I(2), N)] if self.p(.3) else [])) if self.hashable(i)])
            v = {'t': k, 'l': items}
            return self.cell(v) if k == 'set' and self.p(.5) else v
        if k == 'dict':
            return self.mc(self.mkdict([(self.key(), self.anyv(d + 1)) for _ in range(n)]))
        if k == 'odd':
            return r.choice([self.cell(dict(OBJ)), self.cell({'t': 'map', 'd': [[S('a'), I(1)]]}), self.cell(ITB('deque', [I(1)])),
                             self.cell(ITB('iter', [I(1)])), ELL, UNDEF] + ([self.cell(ITB('gen', [I(1), S('a')]))] if self.gens else []))
        return self.mc(self.inst(d))

    def inst(self, d):
        r = self.rng
        c = r.choice(['MA', 'MB', 'MCF', 'DA', 'DB', 'DS', 'DA1', 'AttrObj'])
        names = {'DB': ['a', 'b'], 'DA1': ['a', 'b', 'c', 'd']}.get(c, KEYS)
        vals = [(n, self.anyv(d + 1)) for n in names]
        if c.startswith('M'):
            vals = [v for v in vals if self.p(.8)]
            return INST(c, vals, [n for n, _ in vals if self.p(.7)], [('q', self.scalar())] if self.p(.3) else None)
        return INST(c, vals)

    def mc(self, v):
        return self.cell(v) if self.p(self.p_cell) else v

    def key(self):
        r = self.rng
        return r.choice([S('a'), S('b'), S('c'), S('1'), I(1), I(2), B(True), N, F(1.5), BY('a'), E('EStr', 'X'), E('EInt', 'ONE'), T(I(1), S('a')), D('1.5'),
                         S('a'), S('b'), E('EPlain', 'A'), {'t': 'strsub', 's': 'k'}] + ([SPECIAL[2], SPECIAL[0], BY(b'\xff\xfe')] if self.p(.1) else []))

    def mkdict(self, pairs):
        out, seen = [], set()
        for k, v in pairs:
            e = self.eqkey(k)
            if e not in seen:
                seen.add(e)
                out.append((k, v))
        return M(*out)

    def junk(self, mode=None):
        return self.anyv(1)

    def sval(self, s, d=0, plain=False):
        """A value suiting the schema, or not."""
        if not plain and self.p(self.p_bad):
            return self.anyv(1)
        if d > 7:
            return N
        v = self.sv(s, d, plain)
        return self.mc(v) if v['t'] in ('list', 'dict', 'inst', 'set') and not plain else v

    def sv(self, s, d, plain):
        r, t = self.rng, s['type']
        sub = lambda q: self.sval(q, d + 1, plain)
        n = r.randint(0, 3)
        any_ = {'type': 'any'}
        if t == 'any' or t in ('function-plain', 'call', 'is-instance'):
            return self.scalar() if plain else self.anyv(min(d, 2))
        if t == 'none':
            return N
        if t == 'int':
            return r.choice([I(r.choice(INTS)), I(r.choice(INTS)), I(10**12), I(-2**70), B(True), {'t': 'intsub', 'i': 3}, E('EInt', 'ONE')] if not plain else [I(1), I(2)])
        if t == 'float':
            return r.choice([F(r.choice(FLOATS)), F(1.5), F(2.0), I(2), {'t': 'floatsub', 'q': 2}] + (SPECIAL if self.p(self.special) else [])) if not plain else F(1.5)
        if t == 'bool':
            return B(self.p(.5))
        if t == 'str':
            return r.choice([S(r.choice(STRS)), S(r.choice(STRS)), {'t': 'strsub', 's': 'sub'}, E('EStr', 'Y')]) if not plain else S(r.choice(STRS))
        if t == 'bytes':
            return BY(r.choice(BYTES)) if self.p(.8) else BSUB(r.choice(BYTES))
        if t == 'decimal':
            return D(r.choice(DECS))
        if t == 'literal':
            return copy.deepcopy(r.choice(s['expected']))
        if t == 'enum':
            return E(s['cls'], r.choice(ENUM_VALUES[s['cls']])[0])
        if t == 'nullable':
            return N if self.p(.25) else sub(s['schema'])
        if t == 'default':
            if 'default' in s and self.p(.45):
                return copy.deepcopy(s['default'])
            return sub(s['schema'])
        if t in ('list', 'generator'):
            items = [sub(s.get('items_schema', any_)) for _ in range(n)]
            if t == 'generator':
                return L(*items) if not self.gens or plain else self.cell(ITB('gen', items, r.choice([-1, -1, -1, 1]) if n else -1))
            return L(*items)
        if t in ('set', 'frozenset'):
            items = self.dedup([i for i in (sub(s.get('items_schema', any_)) for _ in range(n)) if self.hashable(i)])
            return {'t': t, 'l': items}
        if t == 'tuple':
            it = s['items_schema']
            v = s.get('variadic_item_index')
            if v is None:
                items = [sub(q) for q in it]
                if not plain and self.p(.1):
                    items = items[:-1]
                elif not plain and self.p(.1):
                    items.append(self.scalar())
            else:
                items = [sub(q) for q in it[:v]] + [sub(it[v]) for _ in range(r.randint(0, 2))] + [sub(q) for q in it[v + 1:]]
            return T(*items)
        if t == 'dict':
            pairs = []
            for _ in range(n):
                k = sub(s.get('keys_schema', any_))
                if 'serialization' in s and k['t'].startswith('bytes'):
                    k = I(7)  # (schema filters go by the hash, which b'a' and 'a' share)
                if not self.hashable(k) or k['t'] == 'ref' or k['t'] == 'inst' or "'ref'" in str(k) or "'inst'" in str(k):
                    k = self.key()
                    if k['t'].startswith('bytes') and 'serialization' in s:
                        k = I(7)
                pairs.append((k, sub(s.get('values_schema', any_))))
            return self.mkdict(pairs)
        if t in ('union', 'tagged-union'):
            c = r.choice(s['choices'])
            v = sub(c['schema'])
            if t == 'tagged-union' and self.p(.85):
                self.settag(v, s, c['tag'])
            return v
        if t in ('chain',):
            return sub(s['steps'][-1])
        if t in ('custom-error', 'function-before', 'function-after', 'function-wrap', 'definitions', 'json'):
            return sub(s['schema']) if 'schema' in s else self.scalar()
        if t == 'lax-or-strict':
            return sub(s['strict_schema'])
        if t == 'json-or-python':
            return sub(r.choice([s['json_schema'], s['python_schema']]))
        if t == 'definition-ref':
            return sub(self.refs[s['schema_ref']])
        if t == 'typed-dict':
            pairs = [(f['name'], sub(f['schema'])) for f in s['fields'] if plain or self.p(.9)]
            if not plain:
                if self.p(.15):
                    pairs.append(('q', self.scalar()))
                if self.p(.02):
                    pairs.append((I(1), self.scalar()))
                if self.p(.2):
                    r.shuffle(pairs)
            return M(*pairs)
        if t == 'model':
            if s.get('root_model'):
                return INST(s['cls'], [('root', sub(s['schema']))], ['root'])
            inner = self.unwrap(s['schema'])
            vals = [(f['name'], sub(f['schema'])) for f in inner['fields'] if plain or self.p(.95)]
            if s['cls'] == 'MCF' and not any(k == 'a' for k, _ in vals) and self.p(.95):
                vals.append(('a', self.scalar()))
            if not plain and self.p(.04):
                vals.append(('zz', self.scalar()))
            ex = None
            if s.get('config', {}).get('extra_fields_behavior') == 'allow' and self.p(.85):
                ex = [(k, self.sval(inner.get('extras_schema', any_), d + 1)) for k in r.sample(['q', 'w', 'x'], r.randint(0, 2))]
            c = s['cls']
            if not plain and c == 'MA' and self.p(.2):
                c = 'MA1'
            v = INST(c, vals, [k for k, _ in vals if self.p(.6)], ex)
            if not plain and self.p(.02):
                v['hf'], v['fs'] = False, []
            return v
        if t == 'dataclass':
            by = {f['name']: f for f in s['schema']['fields']}
            c = s['cls']
            if not plain and c == 'DA' and self.p(.2):
                c = 'DA1'
            names = {'DB': ['a', 'b'], 'DA1': ['a', 'b', 'c', 'd']}.get(c, KEYS)
            return INST(c, [(k, sub(by[k]['schema']) if k in by else self.scalar()) for k in names])
        return self.anyv(1)

    def settag(self, v, s, tag):
        name = s['discriminator'].get('s') or s['discriminator'].get('key') or (s['discriminator'].get('c') or [[], [{}]])[1][0].get('s')
        v = self.heap[v['r'] - 1] if v['t'] == 'ref' else v
        if v['t'] in ('dict', 'inst') and name:
            for p in v['d']:
                if p[0] == S(name):
                    p[1] = tag

    # ------------------------------------------------------------------ filters
    def flt(self, v, d=0):
        """An include/exclude value shaped like v."""
        r = self.rng
        v = self.heap[v['r'] - 1] if v['t'] == 'ref' else v
        if self.p(.02):
            return r.choice([N, S('a') if False else I(1), L(S('a'), I(0)), T(I(0))])
        t = v['t']
        keys, subs = [], {}
        if t in ('list', 'tuple', 'itb'):
            for i, x in enumerate(v['l']):
                keys.append(I(i))
                subs[json.dumps(I(i))] = x
            keys += [I(-1), I(len(v['l'])), S('__all__')]
            subs[json.dumps(I(-1))] = v['l'][-1] if v['l'] else N
            subs[json.dumps(S('__all__'))] = r.choice(v['l']) if v['l'] else N
        elif t in ('dict', 'inst'):
            for k, x in v['d'] + (v.get('x') or []):
                if k['t'] in ('str', 'int', 'bool', 'none'):
                    keys.append(k)
                    subs[json.dumps(k)] = x
            keys += [S('__all__'), S('zz'), S('cp_a'), S('cp_list')]
            subs[json.dumps(S('__all__'))] = r.choice(v['d'])[1] if v['d'] else N
        elif t in ('set', 'frozenset'):
            return self.flt(r.choice(v['l']), d + 1) if v['l'] else SET(I(0))
        else:
            keys = [I(0), S('a'), S('b'), S('__all__')]
        ks = self.dedup(r.sample(keys, min(len(keys), r.choice([0, 1, 1, 2, 2, 3]))))
        if S('__all__') in ks and self.p(.5):
            ks.remove(S('__all__'))
        if I(-1) in ks and any(k == I(len(v.get('l', [])) - 1) for k in ks):
            ks.remove(I(-1))
        if self.p(.45) or d > 2:
            return SET(*ks)
        out = []
        for k in ks:
            x = subs.get(json.dumps(k))
            if x is not None and self.p(.6):
                out.append((k, self.flt(x, d + 1)))
            else:
                out.append((k, r.choice([B(True), ELL, ELL, B(True), B(False)]) if self.p(.97) else I(1)))
        return M(*out)

    def sop(self, s, i=1, kinds=('to_python', 'to_python', 'to_json', 'to_json'), x=None, flt=None, opts=.12):
        r = self.rng
        o = {'op': r.choice(kinds), 's': i}
        mod = o['op'].startswith('m_')
        o['x'] = x if x is not None else (self.anyv() if mod else self.sval(s))
        if mod:
            del o['s']
        if o['op'] == 'to_python':
            o['mode'] = r.choice(['python', 'json', 'json'])
            if self.p(.03):
                o['mode'] = 'other'
        pf = self.p_flt if flt is None else flt
        if self.p(pf):
            o['inc'] = self.flt(o['x'])
        if self.p(pf):
            o['exc'] = self.flt(o['x'])
        if self.p(.3):
            o['by_alias'] = r.choice(['true', 'false'])
        for k in ('en', 'rt') + (() if mod else ('eu', 'ed')):
            if self.p(opts):
                o[k] = True
        if self.p(opts * .6):
            o['as_any'] = True
        if not mod and self.p(.25):
            o['warnings'] = r.choice(['none', 'error', 'warn'])
        if self.p(.12):
            self.nf += 1
            o['fb'] = r.choice([{'f': 'fb', 'b': 'const', 'v': self.scalar()}, {'f': 'fb', 'b': 'wrap_list'}, {'f': 'fb', 'b': 'raise_value'}, {'f': 'fb', 'b': 'raise_other'},
                                {'f': 'fb', 'b': 'const', 'v': I(1)}])
            if o['fb']['b'] == 'wrap_list':
                o['fb'] = {'f': 'fb', 'b': 'const', 'v': L(I(1), S('x'))}
        if mod and self.p(.15):
            o['su'] = True
        if mod and self.p(.4):
            o['inf_nan_mode'] = r.choice(['constants', 'null', 'strings'])
        if mod and self.p(.4):
            o['bytes_mode'] = r.choice(['utf8', 'hex', 'base64'])
        if self.p(.15):
            o['ctx'] = r.choice([M(('k', I(1))), M(), L(I(1))])
        if o['op'] in ('to_json', 'm_to_json') and self.p(.2):
            o['indent'] = r.choice([0, 1, 2, 4])
        return o

    def scfg(self):
        r = self.rng
        c = {}
        if self.p(.25):
            c['ser_json_inf_nan'] = r.choice(['null', 'constants', 'strings'])
        if self.p(.2):
            c['ser_json_bytes'] = r.choice(['utf8', 'hex', 'base64'])
        if self.p(.12):
            c['serialize_by_alias'] = self.p(.7)
        return c

    def attach(self):
        """Serializers carried by classes, found by inference."""
        out = []
        if self.p(.3):
            for c in self.rng.sample(['MA', 'MB', 'MCF', 'DA'], self.rng.randint(1, 2)):
                sc, self.scope = self.scope, []
                s = self.z_dataclass(self.maxd - 1, c) if c[0] == 'D' else self.z_model(self.maxd - 1, c)
                self.scope = sc
                s.pop('root_model', None) and s.update(schema={'type': 'model-fields', 'fields': []})
                out.append((c, s))
        return out


def pykey(v):
    """What a dict key equals, as far as numbers and tuples go."""
    t = v['t']
    if t == 'bool': return v['b']
    if t in ('int', 'intsub'): return v['i']
    if t in ('float', 'floatsub'): return v['q'] / 4
    if t == 'tuple': return tuple(pykey(x) for x in v['l'])
    return json.dumps(v, sort_keys=True)


def dup_key(x):
    if isinstance(x, dict):
        if x.get('t') in ('dict', 'map') and len({pykey(k) for k, _ in x['d']}) < len(x['d']):
            return True
        return any(dup_key(y) for y in x.values())
    return isinstance(x, list) and any(dup_key(y) for y in x)


def build(g, s, ops, cfg=None, att=()):
    bad = odd_key if 'include-exclude-dict' in repr((s, att)) else dup_key
    if bad(g.heap):
        ops = []
    ops = [o for o in ops if not bad(o['x']) and not dup_key(o['x'])]
    schemas = [{'v': s, 'ser': True, 'only_ser': True}]
    cfgs = [cfg if cfg is not None else g.scfg()]
    for c, a in att:
        schemas.append({'v': a, 'ser': True, 'only_ser': True, 'attach': c})
        cfgs.append(g.scfg())
    return dict(heap=g.heap, schemas=schemas, cfg=[dict(c, has=bool(c)) for c in cfgs], ops=ops)


def odd_key(x):
    """Does a dict in this value have keys which the hash-keyed schema filters mistake for others?"""
    if isinstance(x, dict):
        if x.get('t') in ('dict', 'map') and any(k['t'].startswith('bytes') or k.get('i') in (-1, -2) for k, _ in x['d']):
            return True
        return any(odd_key(y) for y in x.values())
    return isinstance(x, list) and any(odd_key(y) for y in x)


def sers(rng, n, nops=6, kinds=('to_python', 'to_python', 'to_json', 'to_json'), roots=None, opts=.12, gens=False, **kw):
    out = []
    for _ in range(n):
        g = SG(rng, **kw)
        s = g.make(rng.choice(roots), 0) if roots else g.schema(0)
        att = g.attach()
        g.gens = gens
        ops = [g.sop(s, kinds=kinds, opts=opts) for _ in range(nops)]
        out.append(build(g, s, ops, att=att))
    return out


NOUNION = {'union': 0, 'tagged-union': 0}


def p20(rng, tier):
    k = 1 if tier == 'quick' else 8
    return sers(rng, 1500 * k, p_flt=.45, p_fn=.02, p_bad=.08, opts=.2, roots=['model', 'typed-dict', 'dataclass', 'list', 'dict', 'tuple', 'set', 'any'], p_schema_flt=.3) + \
        sers(rng, 500 * k, p_flt=.5, kinds=('m_to_json', 'm_to_jsonable'), roots=['any']) + \
        sers(rng, 300 * k, p_flt=.4, p_fn=0, gens=True, comp=NOUNION, roots=['generator', 'any', 'list', 'generator'])


def p21(rng, tier):
    """Every value three ways: JSON text, json-mode python, and compact or indented."""
    k = 1 if tier == 'quick' else 8
    out = []
    for _ in range(1500 * k):
        g = SG(rng, p_flt=.15, p_fn=.04, p_bad=.15, special=.5, p_ser=.08)
        s = g.schema(0)
        att = g.attach()
        ops = []
        for _ in range(3):
            o = g.sop(s, kinds=('to_json',))
            o.pop('indent', None)
            ops += [o, dict(o, op='to_python', mode='json'), dict(o, indent=rng.choice([0, 1, 2, 3]))]
        out.append(build(g, s, ops, att=att))
    for _ in range(400 * k):
        g = SG(rng, p_flt=.1, special=.5)
        ops = []
        for _ in range(3):
            o = g.sop({'type': 'any'}, kinds=('m_to_json',))
            o.pop('indent', None)
            ops += [o, dict(o, op='m_to_jsonable'), dict(o, indent=rng.choice([0, 1, 2, 3]))]
        out.append(build(g, {'type': 'any'}, ops, att=g.attach()))
    return out


def p22(rng, tier):
    k = 1 if tier == 'quick' else 8
    u = {'union': 3, 'tagged-union': 2}
    return sers(rng, 1300 * k, p_bad=.35, p_fn=.03, p_flt=.05, roots=['union', 'tagged-union', 'union', 'tagged-union', 'list', 'dict', 'model'], comp=u) + \
        sers(rng, 900 * k, p_bad=.5, p_fn=.03, p_flt=.05)


def p33(rng, tier):
    k = 1 if tier == 'quick' else 8
    return sers(rng, 2200 * k, p_bad=.15, p_fn=.35, p_flt=.25, opts=.15)


# ----------------------------------------------------------------------- P28
def mixed_heap(rng, n, cyc, classes):
    """Cells of every kind that can hold others, their edges drawn at random."""
    heap = []
    for i in range(n):
        def tgt():
            js = list(range(1, n + 1)) if cyc else list(range(i + 2, n + 1))
            return R(rng.choice(js)) if js else I(i)
        es = [tgt() if rng.random() < .85 else rng.choice([I(1), S('x'), N, F(1.5)]) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
        k = rng.choice(['list', 'list', 'dict', 'dict', 'inst', 'itb'] + ([] if cyc else ['tuple']))  # (a tuple on a cycle has an identity the model does not track)
        if k == 'list':
            heap.append(L(*es))
        elif k == 'tuple':
            heap.append(L(T(*es), *es[:1]))
        elif k == 'itb':
            heap.append({'t': 'itb', 'k': 'deque', 'l': es, 'fail': -1})
        elif k == 'dict':
            heap.append({'t': 'dict', 'd': [[S('abc'[j]), e] for j, e in enumerate(es)]})
        else:
            c = rng.choice(classes)
            d = [('abc'[j], e) for j, e in enumerate(es)]
            heap.append(INST(c, d) if c[0] == 'D' else INST(c, d, [a for a, _ in d]))
    return heap


def serop(rng, x, prop=True, **kw):
    o = {'op': rng.choice(['to_python', 'to_python', 'to_json', 'to_json']), 's': 1, 'x': x, 'warnings': rng.choice(['none', 'warn'])}
    if o['op'] == 'to_python':
        o['mode'] = rng.choice(['python', 'json', 'json'])
    if prop:
        o['prop'] = 'cycle'
    o.update(kw)
    return o


def p28(rng, tier):
    from gen_props import rec_schema, rec_heap
    k = 1 if tier == 'quick' else 8
    out = []
    ser = lambda s, **kw: dict({'v': s, 'ser': True, 'only_ser': True}, **kw)

    def add(schemas, heap, ops):
        out.append(dict(heap=heap, schemas=schemas, cfg=[{'has': False} for _ in schemas], ops=ops))
    # recursive schemas
    for _ in range(1000 * k):
        s, kind = rec_schema(rng)
        m = rng.choice([1, 2, 3, 3, 4, 5])
        cyc = rng.random() < .55
        heap = rec_heap(rng, kind, m, cyc) if rng.random() < .8 else mixed_heap(rng, m, cyc, ['MA', 'DA'])
        if len(str(heap)) > 1500:
            continue
        xs = [R(i + 1) for i in range(m)] + [L(R(1), R(m)), L(*[R(i + 1) for i in range(m)]), T(R(1), R(1)), T(R(1), L(R(1), R(m))), M(('a', R(1)), ('b', L(R(m), R(1))))]
        safe = not any(c['t'] in ('inst', 'itb') for c in heap)
        ops = [serop(rng, x, prop=safe) for x in rng.sample(xs, min(len(xs), 5))]
        # the same call again: nothing may be left over from the failure before
        ops += [dict(o) for o in rng.sample(ops, 2)]
        add([ser(s)], heap, ops)
    # untyped data, instances with and without a serializer of their own
    for _ in range(1000 * k):
        m = rng.choice([1, 2, 3, 3, 4])
        cyc = rng.random() < .6
        heap = mixed_heap(rng, m, cyc, ['MA', 'MA', 'DA', 'DB', 'AttrObj'] if rng.random() < .2 else ['MA', 'DA'])
        if len(str(heap)) > 1500:
            continue
        A = {'type': 'any'}
        s = rng.choice([A, A, A, {'type': 'list'}, {'type': 'dict', 'values_schema': A}, {'type': 'list', 'items_schema': {'type': 'list', 'items_schema': A}},
                        {'type': 'model', 'cls': 'MA', 'schema': {'type': 'model-fields', 'fields': [{'name': 'a', 'schema': A}, {'name': 'b', 'schema': {'type': 'list', 'items_schema': A}}]}},
                        {'type': 'union', 'choices': [{'schema': {'type': 'int'}}, {'schema': {'type': 'list', 'items_schema': A}}, {'schema': {'type': 'dict'}}]}])
        schemas = [ser(s)]
        if rng.random() < .6:
            fs = [{'name': n, 'schema': A if rng.random() < .6 else {'type': 'list'}} for n in 'ab']
            schemas.append(ser({'type': 'model', 'cls': 'MA', 'schema': {'type': 'model-fields', 'fields': fs}}, attach='MA'))
        if rng.random() < .4:
            fs = [{'name': n, 'schema': rng.choice([A, {'type': 'nullable', 'schema': {'type': 'definition-ref', 'schema_ref': 'RD'}}])} for n in 'abc']
            schemas.append(ser({'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'RD'}, 'definitions': [
                {'type': 'dataclass', 'cls': 'DA', 'ref': 'RD', 'schema': {'type': 'dataclass-args', 'dataclass_name': 'DA', 'fields': fs}, 'fields': ['a', 'b', 'c']}]}, attach='DA'))
        xs = [R(i + 1) for i in range(m)] + [L(R(1), R(m)), T(R(1), R(1)), M(('a', R(1)), ('b', L(R(m), R(1))))]
        ops = []
        for x in rng.sample(xs, min(len(xs), 5)):
            o = serop(rng, x, prop=False)
            if rng.random() < .3:
                o['op'] = rng.choice(['m_to_json', 'm_to_jsonable'])
                o.pop('mode', None)
                o.pop('warnings', None)
                if rng.random() < .3:
                    o['su'] = True
            ops.append(o)
        ops += [dict(o) for o in rng.sample(ops, 2)]
        add(schemas, heap, ops)
    # every graph of two cells, of lists and of dicts
    nodes = [[], [1], [2], [1, 1], [1, 2], [2, 1], [2, 2]]
    mk = [lambda es: L(*[R(i) for i in es]), lambda es: {'t': 'dict', 'd': [[S('ab'[j]), R(i)] for j, i in enumerate(es)]}]
    ref = {'type': 'definition-ref', 'schema_ref': 'R'}
    bodies = [{'type': 'any'}, {'type': 'definitions', 'schema': ref, 'definitions': [{'type': 'list', 'items_schema': ref, 'ref': 'R'}]},
              {'type': 'definitions', 'schema': ref, 'definitions': [{'type': 'dict', 'values_schema': ref, 'ref': 'R'}]}]
    for a in nodes:
        for b in nodes:
            for ka in mk:
                for kb in mk:
                    for s in bodies:
                        add([ser(s)], [ka(a), kb(b)], [{'op': o, 's': 1, 'x': R(i), **({'mode': 'python'} if o == 'to_python' else {})}
                                                       for i in (1, 2, 1) for o in ('to_python', 'to_json')])
    # long chains around the depth limit
    for depth in (60, 150, 233, 234, 235, 236, 240):
        heap = [L(R(i + 2)) for i in range(depth - 1)] + [L()]
        for s in bodies[:2]:
            add([ser(s)], heap, [dict({'op': o, 's': 1, 'x': R(i), 'measure': True}, **({'mode': mo} if o == 'to_python' else {}))
                                 for i in (1, 2, depth, 1) for o, mo in (('to_python', 'json'), ('to_python', 'python'), ('to_json', ''))])
    return out
