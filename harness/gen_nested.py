"""Random nested schemas with inputs aimed at them."""
from __future__ import annotations
import copy
import random

from values import *

KEYS = ['a', 'b', 'c']
ALIAS = ['A', 'B', 'x', 'y']
INTS = [0, 1, 2, 3, 5, 7, -1, 10]
LEAVES = ['int', 'str', 'float', 'bool', 'none', 'any', 'bytes', 'literal', 'enum', 'is-instance', 'callable']
COMP = ['list', 'set', 'frozenset', 'tuple', 'dict', 'union', 'tagged-union', 'nullable', 'default', 'function-before',
        'function-after', 'function-wrap', 'function-plain', 'chain', 'lax-or-strict', 'json-or-python', 'custom-error',
        'model', 'typed-dict', 'dataclass', 'arguments', 'call', 'json', 'definitions']
W0 = {'int': 6, 'str': 4, 'float': 2, 'bool': 2, 'none': 1, 'any': 1, 'bytes': 1, 'literal': 1.5, 'enum': 1, 'is-instance': .3,
      'callable': .2, 'list': 1, 'set': .5, 'frozenset': .4, 'tuple': 1, 'dict': 1, 'union': 1, 'tagged-union': .5,
      'nullable': .7, 'default': .7, 'function-before': .3, 'function-after': .3, 'function-wrap': .3, 'function-plain': .2,
      'chain': .2, 'lax-or-strict': .3, 'json-or-python': .3, 'custom-error': .2, 'model': .8, 'typed-dict': .8,
      'dataclass': .6, 'arguments': .3, 'call': .2, 'json': .2, 'definitions': .2}
BEH = ['id', 'const', 'wrap_list', 'raise_value', 'raise_assert', 'raise_custom', 'raise_known', 'raise_omit', 'raise_usedef',
       'raise_other', 'raise_type', 'raise_runtime']
ENUM_VALUES = {'EPlain': [('A', 1), ('B', 'b'), ('C', 2.5)], 'EInts': [('P', 1), ('Q', 2), ('R', 7)],
               'EStr': [('X', 'x'), ('Y', 'yes'), ('N', '1')], 'EInt': [('ZERO', 0), ('ONE', 1), ('TWO', 2)],
               'EFall': [('A', 'a'), ('B', 5)], 'EFlo': [('H', .5), ('W', 2.0)]}
MODEL_CLASSES = ['MA', 'MB', 'MC', 'MD', 'ME']
DC_CLASSES = ['DA', 'DB', 'DS', 'DP']


def py(v):
    if v is None:
        return N
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, int):
        return I(v)
    if isinstance(v, float):
        return F(v)
    return S(v)


class G:
    def __init__(self, rng, weights=None, only=None, depth=3, p_bad=.12, p_strict=.08, p_cell=.3, functions=True,
                 aliases=.35, partial=False, errors=True, fn_raise=.35):
        self.rng = rng
        self.w = dict(W0)
        if only is not None:
            self.w = {k: v for k, v in self.w.items() if k in only}
        self.w.update(weights or {})
        self.maxd = depth
        self.p_bad, self.p_strict, self.p_cell = p_bad, p_strict, p_cell
        self.aliases, self.fn_raise = aliases, fn_raise
        self.heap = []
        self.nf = 0
        self.nref = 0
        self.refs = {}          # ref -> schema (for values)
        self.jtexts = [{'s': t, 'ok': True, 'p': True, 'v': v} for t, v in [(str(i), I(i)) for i in INTS] + [('1.5', F(1.5)), ('2.0', F(2.0)), ('true', B(True)), ('null', N), ('[]', L()), ('{}', M())]]
        self.partial = partial
        self.in_union = 0
        self.used_cls = {}
        self.scope = []         # refs that may be mentioned here (below a container)

    # ------------------------------------------------------------------ helpers
    def p(self, x):
        return self.rng.random() < x

    def cell(self, v):
        self.heap.append(v)
        return R(len(self.heap))

    def pick(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.rng.choices(ks, [d[k] for k in ks])[0]

    def fnrec(self, wrap=False, info=True, v=None):
        r = self.rng
        self.nf += 1
        f = {'f': 'f%d' % self.nf}
        if self.p(self.fn_raise):
            f['b'] = r.choice(BEH[3:])
            if f['b'] in ('raise_other', 'raise_type', 'raise_runtime') and self.p(.5):
                f['b'] = 'raise_value'
        elif wrap:
            f['b'] = r.choice(['call', 'call', 'call_const', 'call_list', 'catch', 'catch', 'catch_retry', 'twice', 'loc', 'id', 'const'])
        else:
            f['b'] = r.choice(['id', 'id', 'const', 'wrap_list'])
        if f['b'] in ('const', 'call_const', 'catch', 'catch_retry'):
            f['v'] = v if v is not None else self.scalar()
        if f['b'] == 'loc':
            f['loc'] = 'here'
        if f['b'].startswith('raise') and self.p(.6):
            f['when'] = self.rng.choice([I(1), I(2), S('a'), S('1'), N, I(3), B(True)])
        if info and self.p(.5):
            f['info'] = True
            if self.p(.3):
                f['fname'] = 'named'
        return f

    def scalar(self):
        r = self.rng
        return r.choice([I(r.choice(INTS)), I(r.choice(INTS)), S(r.choice(['a', 'b', '1', '2', 'abc', 'yes', '', '1.5'])), B(True), B(False), N,
                         F(r.choice([0.0, 1.0, 1.5, 2.0, -.5]))])

    def junk(self, mode):
        r = self.rng
        if mode == 'strings':
            return r.choice([S('a'), S('1'), S(''), M(), M(('a', S('1'))), S('true'), S('1.5'), S('None')])
        v = [self.scalar(), self.scalar(), self.scalar(), L(), L(I(1), S('2')), M(), M(('a', I(1))), M(('b', S('x')), ('a', L()))]
        if mode == 'python':
            v += [T(I(1), I(2)), FS(I(1)), BY('1'), OBJ, E('EInt', 'ONE'), E('EStr', 'X'), CLS('int'), {'t': 'strsub', 's': '1'},
                  {'t': 'intsub', 'i': 1}, D('1'), INST('MA', [('a', I(1))], ['a']), ARGS([I(1)], [('b', I(2))]), ARGS([I(1)]),
                  INST('DB', [('a', I(1)), ('b', I(2))]), INST('AttrObj', [('a', I(1)), ('b', S('2'))])]
        x = copy.deepcopy(r.choice(v))
        if mode == 'python' and x['t'] in ('obj', 'inst') and (x['t'] == 'obj' or self.p(.5)):
            return self.cell(x)
        return x

    # ------------------------------------------------------------------ schemas
    def schema(self, d=0, ctx=None):
        w = self.w
        if d >= self.maxd:
            w = {k: v for k, v in w.items() if k in LEAVES}
        elif d == 0:
            comp = {k: v for k, v in w.items() if k not in LEAVES}
            if comp:
                w = comp
        t = self.pick(w)
        if self.scope and d > 0 and self.p(.25):
            return {'type': 'definition-ref', 'schema_ref': self.rng.choice(self.scope)}
        return self.make(t, d)

    def strictify(self, s):
        if self.p(self.p_strict):
            s['strict'] = self.p(.7)
        return s

    def sizes(self, s, hi=3):
        if self.p(.2):
            s['min_length'] = self.rng.randint(0, 2)
        if self.p(.2):
            s['max_length'] = self.rng.randint(0, hi)
        return s

    def make(self, t, d):
        r = self.rng
        m = getattr(self, 's_' + t.replace('-', '_'), None)
        if m:
            return m(d)
        return {'type': t}

    def s_int(self, d):
        s = self.strictify({'type': 'int'})
        if self.p(.2):
            s['ge'] = I(r.choice([0, 1])) if (r := self.rng) else None
        if self.p(.15):
            s['lt'] = I(self.rng.choice([3, 5]))
        return s

    def s_str(self, d):
        s = self.strictify({'type': 'str'})
        return self.sizes(s) if self.p(.4) else s

    def s_float(self, d):
        s = self.strictify({'type': 'float'})
        if self.p(.2):
            s['gt'] = F(0.0)
        return s

    def s_bool(self, d):
        return self.strictify({'type': 'bool'})

    def s_bytes(self, d):
        return self.strictify({'type': 'bytes'})

    def s_literal(self, d):
        r = self.rng
        pool = [I(1), I(2), S('a'), S('b'), S('1'), B(True), B(False), N, F(1.5), F(2.0), BY('a'), E('EStr', 'X'), E('EInts', 'Q'), I(0)]
        ls = r.sample(pool, r.randint(1, 4))
        return {'type': 'literal', 'expected': ls}

    def s_enum(self, d):
        return self.strictify({'type': 'enum', 'cls': self.rng.choice(list(ENUM_VALUES))})

    def s_is_instance(self, d):
        r = self.rng
        if self.p(.3):
            return {'type': 'is-instance', 'cls_list': r.sample(['int', 'str', 'MA', 'Opaque', 'AttrObj'], 2), 'cls_repr': 'Pair'}
        return {'type': 'is-instance', 'cls': r.choice(['int', 'str', 'list', 'MA', 'Opaque', 'AttrObj', 'float', 'dict'])}

    def s_list(self, d):
        s = self.strictify({'type': 'list'})
        if self.p(.85):
            s['items_schema'] = self.schema(d + 1)
        if self.p(.1):
            s['fail_fast'] = True
        return self.sizes(s)

    def s_set(self, d):
        s = self.strictify({'type': 'set'})
        if self.p(.85):
            s['items_schema'] = self.schema(d + 1)
        if self.p(.1):
            s['fail_fast'] = True
        return self.sizes(s)

    def s_frozenset(self, d):
        return dict(self.s_set(d), type='frozenset')

    def s_tuple(self, d):
        r = self.rng
        n = r.randint(0, 3)
        s = self.strictify({'type': 'tuple', 'items_schema': [self.schema(d + 1) for _ in range(n)]})
        if n and self.p(.5):
            s['variadic_item_index'] = r.randrange(n)
        if self.p(.1):
            s['fail_fast'] = True
        return self.sizes(s, 4) if self.p(.5) else s

    def s_dict(self, d):
        s = self.strictify({'type': 'dict'})
        if self.p(.8):
            s['keys_schema'] = self.make(self.pick({'str': 3, 'int': 2, 'any': 1, 'literal': .5, 'bool': .3, 'function-after': .3}), self.maxd)
        if self.p(.8):
            s['values_schema'] = self.schema(d + 1)
        return self.sizes(s)

    def s_nullable(self, d):
        return {'type': 'nullable', 'schema': self.schema(d + 1)}

    def s_union(self, d):
        r = self.rng
        self.in_union += 1
        n = r.choice([1, 2, 2, 2, 3, 3, 4])
        ch = []
        for _ in range(n):
            c = {'schema': self.schema(d + 1)}
            if self.p(.15) or 'definition-ref' in str(c):
                c['label'] = 'L%d' % len(ch)
            ch.append(c)
        self.in_union -= 1
        s = {'type': 'union', 'choices': ch}
        if self.p(.4):
            s['mode'] = r.choice(['smart', 'left_to_right'])
        if n == 1 and self.p(.5):
            s['auto_collapse'] = False
        if self.p(.08):
            s.update(self.cerr())
        return s

    def cerr(self):
        r = self.rng
        return r.choice([
            {'custom_error_type': 'my_type', 'custom_error_message': 'my message'},
            {'custom_error_type': 'my_type', 'custom_error_message': 'my message {k}', 'custom_error_context': [['k', I(3)]]},
            {'custom_error_type': 'int_type'}, {'custom_error_type': 'greater_than', 'custom_error_context': [['gt', I(42)]]}])

    def s_tagged_union(self, d):
        r = self.rng
        tags = r.sample([S('a'), S('b'), I(1), I(2), S('1'), B(True), E('EStr', 'X')], r.randint(1, 3))
        name = r.choice(KEYS)
        if any(t['t'] == 'bool' for t in tags):
            tags = [t for t in tags if t != I(1)]
        ch = []
        for tg in tags:
            s = self.make(r.choice(['typed-dict', 'model', 'typed-dict', 'dataclass']), d + 1)
            while s.get('root_model'):
                s = self.make('model', d + 1)
            self.fields_of(s)[:] = [f for f in self.fields_of(s) if f['name'] != name]
            fld = {'name': name, 'schema': {'type': 'any'} if self.p(.5) else {'type': 'literal', 'expected': [tg]}}
            self.fields_of(s).insert(0, fld)
            self.sync(s)
            ch.append({'tag': tg, 'schema': s})
        s = self.strictify({'type': 'tagged-union', 'choices': ch})
        x = r.random()
        if x < .55:
            s['discriminator'] = {'k': 'str', 's': name}
        elif x < .75:
            s['discriminator'] = {'k': 'choices', 'c': [[{'s': name}], [{'s': 'x'}, {'s': 'y'}]]}
        elif x < .8:
            s['discriminator'] = {'k': 'path', 'p': [{'s': 'x'}, {'n': 0}]}
        else:
            self.nf += 1
            s['discriminator'] = r.choice([{'k': 'fn', 'f': 'd%d' % self.nf, 'b': 'key', 'key': name}] * 3 + [
                {'k': 'fn', 'f': 'd%d' % self.nf, 'b': 'const', 'v': r.choice(tags + [N, S('zz')])},
                {'k': 'fn', 'f': 'd%d' % self.nf, 'b': r.choice(['raise_value', 'raise_other', 'raise_omit'])}])
        if self.p(.2):
            s['from_attributes'] = self.p(.5)
        if self.p(.08):
            s.update(self.cerr())
        return s

    def s_default(self, d):
        r = self.rng
        inner = self.schema(d + 1)
        s = {'type': 'default', 'schema': inner}
        x = r.random()
        if x < .45:
            if self.p(.5):
                s['default'] = self.defval(inner)
            else:
                s['default'] = r.choice([self.scalar(), self.cell(L(I(1))), self.cell(M(('a', I(1)))), T(I(1), I(2)), self.cell({'t': 'set', 'l': [I(1)]})])
        elif x < .8:
            self.nf += 1
            f = {'f': 'g%d' % self.nf, 'b': r.choice(['new_list', 'const', 'const'])}
            if f['b'] == 'const':
                f['v'] = self.defval(inner)
            if self.p(.12):
                f['b'] = r.choice(['raise_value', 'raise_other', 'raise_omit', 'raise_usedef'])
            if self.p(.3):
                f['data'] = True
                if self.p(.5):
                    f['b'] = 'get'
                    f['key'] = r.choice(KEYS[:2])
            s['default_factory'] = f
        if ('default' in s or 'default_factory' in s) and self.p(.35):
            s['on_error'] = 'default'
        elif self.p(.12):
            s['on_error'] = 'omit'
        if self.p(.3):
            s['validate_default'] = self.p(.8)
        return s

    def defval(self, s):
        if self.p(.25):
            return self.scalar()
        v = self.value(s, 'python', plain=True)
        return v if "'args'" not in str(v) else self.scalar()

    def s_function_before(self, d):
        inner = self.schema(d + 1)
        return {'type': 'function-before', 'schema': inner, 'function': self.fnrec(v=self.leafval(inner))}

    def s_function_after(self, d):
        inner = self.schema(d + 1)
        return {'type': 'function-after', 'schema': inner, 'function': self.fnrec()}

    def s_function_wrap(self, d):
        inner = self.schema(d + 1)
        return {'type': 'function-wrap', 'schema': inner, 'function': self.fnrec(wrap=True, v=self.leafval(inner))}

    def s_function_plain(self, d):
        return {'type': 'function-plain', 'function': self.fnrec()}

    def leafval(self, s):
        return self.value(s, 'python', plain=True) if self.p(.6) else self.scalar()

    def s_chain(self, d):
        self.part_off = True
        st = [self.schema(d + 1) for _ in range(self.rng.randint(1, 3))]
        return {'type': 'chain', 'steps': [self.noset(x) for x in st[:-1]] + st[-1:]}

    def noset(self, s):
        '''The order of a set is not specified: nothing downstream may look at it.'''
        if isinstance(s, dict):
            s = {k: self.noset(v) for k, v in s.items()}
            if s.get('type') in ('set', 'frozenset'):
                s['type'] = 'list'
        elif isinstance(s, list):
            s = [self.noset(v) for v in s]
        return s

    def s_lax_or_strict(self, d):
        s = {'type': 'lax-or-strict', 'lax_schema': self.schema(d + 1), 'strict_schema': self.schema(d + 1)}
        return self.strictify(s)

    def s_json_or_python(self, d):
        return {'type': 'json-or-python', 'json_schema': self.schema(d + 1), 'python_schema': self.schema(d + 1)}

    def s_custom_error(self, d):
        return {'type': 'custom-error', 'schema': self.schema(d + 1), **self.cerr()}

    def s_json(self, d):
        s = {'type': 'json'}
        if self.p(.85):
            s['schema'] = self.schema(d + 1)
        return s

    def alias_of(self, name):
        r = self.rng
        x = r.random()
        if x < .5:
            return {'k': 'str', 's': r.choice(ALIAS + [name.upper()])}
        if x < .75:
            return {'k': 'path', 'p': self.path()}
        return {'k': 'choices', 'c': [self.path() for _ in range(r.randint(1, 3))]}

    def path(self):
        r = self.rng
        p = [{'s': r.choice(ALIAS)}]
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            p.append({'s': r.choice(['y', 'b', '0'])} if self.p(.5) else {'n': r.choice([0, 1, -1, 2])})
        return p

    def fields(self, d, names=KEYS, lo=0):
        r = self.rng
        out = []
        for n in r.sample(names, r.randint(lo, len(names))):
            f = {'name': n}
            mentionable = self.w.get('default', 0) > 0
            f['schema'] = self.s_default(d + 1) if mentionable and self.p(.3) else self.schema(d + 1)
            if self.p(self.aliases):
                f['validation_alias'] = self.alias_of(n)
            out.append(f)
        return out

    def inner_cfg(self):
        r = self.rng
        c = {}
        if self.p(.1):
            c['strict'] = self.p(.5)
        if self.p(.12):
            c['from_attributes'] = self.p(.7)
        if self.p(.12):
            c['loc_by_alias'] = False
        if self.p(.12):
            c['extra_fields_behavior'] = r.choice(['allow', 'ignore', 'forbid'])
        if self.p(.12):
            c['validate_by_name'] = True
        if self.p(.08):
            c['validate_by_alias'] = False
            c['validate_by_name'] = True
        if self.p(.08):
            c['revalidate_instances'] = r.choice(['always', 'subclass-instances', 'never'])
        if self.p(.05):
            c['validate_default'] = True
        return c

    def extras(self, s):
        r = self.rng
        if self.p(.4):
            s['extra_behavior'] = r.choice(['allow', 'allow', 'ignore', 'forbid'])
        if s.get('extra_behavior') == 'allow' and self.p(.4):
            s['extras_schema'] = self.make(self.pick({'int': 2, 'str': 1, 'function-after': .5, 'any': .5}), self.maxd)
        return s

    def s_typed_dict(self, d):
        fs = self.fields(d)
        for f in fs:
            if self.p(.25):
                f['required'] = self.p(.4)
            dflt = f['schema']
            if dflt['type'] == 'default' and ('default' in dflt or 'default_factory' in dflt) and f.get('required', True):
                f['required'] = False
        for f in fs:
            if f['schema'].get('on_error') == 'omit':
                f['required'] = False
        s = self.strictify({'type': 'typed-dict', 'fields': fs})
        if self.p(.12):
            s['total'] = False
        self.extras(s)
        cfg = self.inner_cfg()
        if cfg and self.p(.6):
            s['config'] = cfg
        return s

    def s_model_fields(self, d):
        fs = self.fields(d)
        for f in fs:
            if self.p(.1):
                f['frozen'] = True
        s = self.strictify({'type': 'model-fields', 'fields': fs})
        if self.p(.3):
            s['model_name'] = 'Name'
        if self.p(.15):
            s['from_attributes'] = self.p(.7)
        self.extras(s)
        if s.get('extra_behavior') == 'allow' and self.p(.25):
            s['extras_keys_schema'] = {'type': 'str', 'max_length': 1}
        return s

    def s_model(self, d, cls=None):
        r = self.rng
        cls = cls or r.choice(MODEL_CLASSES)
        root = self.p(.08)
        inner = self.schema(d + 1) if root else self.s_model_fields(d)
        if not root and self.p(.12):
            inner = {'type': r.choice(['function-before', 'function-after', 'function-wrap']), 'schema': inner,
                     'function': {'f': 'm%d' % r.randint(1, 9), 'b': 'id'}}
            if inner['type'] == 'function-wrap':
                inner['function']['b'] = 'call'
        s = {'type': 'model', 'cls': cls, 'schema': inner}
        if root:
            s['root_model'] = True
        if self.p(.15):
            s['revalidate_instances'] = r.choice(['always', 'subclass-instances', 'never'])
        if self.p(.12):
            s['post_init'] = r.choice(['hook', 'hook', 'hook_err'])
        if self.p(.08):
            s['frozen'] = True
        if self.p(.1):
            s['strict'] = self.p(.5)
        if self.p(.1):
            s['cls_name'] = 'Renamed'
        if self.p(.08) and cls != 'MA':
            s['generic_origin'] = 'MA'
        cfg = self.inner_cfg()
        if cfg and self.p(.7):
            s['config'] = cfg
        return s

    def s_dataclass(self, d, cls=None):
        r = self.rng
        cls = cls or r.choice(DC_CLASSES + ['DA'])
        fs = self.fields(d, KEYS if cls != 'DB' else KEYS[:2], lo=1)
        names = [f['name'] for f in fs]
        post = cls == 'DP' and self.p(.8)
        if cls == 'DP' and self.p(.15):
            cls = 'DQ'
            post = True
        for f in fs:
            if f['schema'].get('on_error') == 'omit':
                f['schema'].pop('on_error')
            if self.p(.5):
                f['kw_only'] = self.p(.4)
            if self.p(.08):
                f['init'] = False
            elif post and self.p(.25):
                f['init_only'] = True
            if self.p(.08):
                f['frozen'] = True
        inner = {'type': 'dataclass-args', 'dataclass_name': 'Dc', 'fields': fs}
        if post:
            inner['collect_init_only'] = True
        self.extras(inner)
        if cls == 'DS':
            inner.pop('extra_behavior', None)
            inner.pop('extras_schema', None)
        s = {'type': 'dataclass', 'cls': cls, 'schema': inner, 'fields': [f['name'] for f in fs if not f.get('init_only')]}
        if post:
            s['post_init'] = True
        if cls == 'DS':
            s['slots'] = True
        if self.p(.15):
            s['strict'] = self.p(.7)
        if self.p(.15):
            s['revalidate_instances'] = r.choice(['always', 'subclass-instances', 'never'])
        if self.p(.08):
            s['frozen'] = True
        if self.p(.08):
            s['cls_name'] = 'Renamed'
        cfg = self.inner_cfg()
        if cls == 'DS':
            cfg.pop('extra_fields_behavior', None)
        if cfg and self.p(.6):
            s['config'] = cfg
        if cls == 'DS':
            s['config'] = dict(s.get('config', {}), extra_fields_behavior='ignore')
        return s

    def s_arguments(self, d):
        r = self.rng
        args = []
        stage = ['positional_only', 'positional_or_keyword', 'keyword_only']
        lo = 0
        seen_default = False
        for n in r.sample(KEYS + ['e'], r.randint(0, 3)):
            lo = max(lo, r.choice([0, 0, 1, 1, 2]))
            a = {'name': n}
            dflt = self.p(.3) or (seen_default and lo < 2)
            if dflt:
                a['schema'] = {'type': 'default', 'schema': self.schema(d + 1)}
                a['schema']['default'] = self.scalar()
                if lo < 2:
                    seen_default = True
            else:
                a['schema'] = self.schema(d + 1)
                if a['schema'].get('on_error') == 'omit':
                    a['schema'].pop('on_error')
                if a['schema']['type'] == 'default' and ('default' in a['schema'] or 'default_factory' in a['schema']) and lo < 2:
                    seen_default = True
            if lo != 1 or self.p(.5):
                a['mode'] = stage[lo]
            if self.p(self.aliases * .7):
                a['alias'] = self.alias_of(n)
            args.append(a)
        s = {'type': 'arguments', 'arguments_list': args}
        if self.p(.35):
            s['var_args_schema'] = self.schema(d + 2)
        x = r.random()
        if x < .3:
            s['var_kwargs_schema'] = self.schema(d + 2)
            if self.p(.3):
                s['var_kwargs_mode'] = 'uniform'
        elif x < .45:
            s['var_kwargs_mode'] = 'unpacked-typed-dict'
            s['var_kwargs_schema'] = self.s_typed_dict(d + 1)
        if self.p(.1):
            s['validate_by_name'] = True
        if self.p(.05):
            s['validate_by_alias'] = False
            s['validate_by_name'] = True
        return s

    def s_call(self, d):
        self.nf += 1
        f = {'f': 'k%d' % self.nf, 'b': 'pack'}
        if self.p(.15):
            f['b'] = self.rng.choice(['raise_value', 'raise_other', 'raise_omit'])
        s = {'type': 'call', 'arguments_schema': self.s_arguments(d + 1), 'function': f}
        if self.p(.3):
            s['return_schema'] = self.make(self.pick({'list': 2, 'any': 1, 'int': 1, 'tuple': 1}), d + 1)
        return s

    def s_definitions(self, d):
        if d > 0:
            return self.make(self.pick({k: v for k, v in self.w.items() if k != 'definitions'}), d)
        r = self.rng
        self.nref += 1
        ref = 'R%d' % self.nref
        self.scope.append(ref)
        kind = r.choice([k for k in ['list', 'model', 'typed-dict', 'dataclass', 'tuple', 'dict'] if self.w.get(k, 0) > 0] or ['list'])
        body = self.make(kind, max(1, self.maxd - 1))
        # force one recursive mention
        rec = r.choice([{'type': 'definition-ref', 'schema_ref': ref}, {'type': 'nullable', 'schema': {'type': 'definition-ref', 'schema_ref': ref}}])
        if kind == 'list':
            body['items_schema'] = rec
            body.pop('min_length', None)
        elif kind == 'dict':
            body['values_schema'] = rec
        elif kind == 'tuple':
            body['items_schema'] = body['items_schema'] + [rec]
            body['variadic_item_index'] = len(body['items_schema']) - 1
            body.pop('min_length', None)
        else:
            fs = self.fields_of(body)
            n = r.choice(KEYS[:2])
            fs[:] = [f for f in fs if f['name'] != n]
            f = {'name': n, 'schema': {'type': 'nullable', 'schema': {'type': 'definition-ref', 'schema_ref': ref}}}
            if self.p(.5):
                f['schema'] = {'type': 'default', 'schema': f['schema'], 'default': N}
                if kind == 'typed-dict':
                    f['required'] = False
            fs.append(f)
            self.sync(body)
        body['ref'] = ref
        self.refs[ref] = body
        self.scope.remove(ref)
        x = r.random()
        main = {'type': 'definition-ref', 'schema_ref': ref}
        if x < .3:
            main = {'type': 'list', 'items_schema': main}
        elif x < .5:
            main = {'type': 'union', 'choices': [{'schema': main, 'label': 'rec'}, {'schema': {'type': 'int'}}]}
        return {'type': 'definitions', 'schema': main, 'definitions': [body]}

    @staticmethod
    def unwrap(s):
        while s['type'].startswith('function'):
            s = s['schema']
        return s

    def fields_of(self, s):
        if s['type'] == 'typed-dict':
            return s['fields']
        if s['type'] in ('model', 'dataclass'):
            inner = self.unwrap(s['schema'])
            if 'fields' in inner:
                return inner['fields']
            s['schema'] = {'type': 'model-fields', 'fields': []}
            s.pop('root_model', None)
            return s['schema']['fields']
        raise KeyError(s['type'])

    def sync(self, s):
        if s['type'] == 'dataclass':
            s['fields'] = [f['name'] for f in s['schema']['fields'] if not f.get('init_only')]

    # ------------------------------------------------------------------- values
    def num(self):
        return self.rng.choice([I(self.rng.choice(INTS)), I(self.rng.choice(INTS)), S(str(self.rng.choice(INTS))), F(1.0), B(True), F(1.5), E('EInt', 'ONE')])

    def value(self, s, mode, plain=False, depth=0):
        """A tagged value likely to suit the schema; plain: no iterators, no errors."""
        r = self.rng
        if depth > 7:
            return N if mode != 'strings' else S('1')
        if not plain and self.p(self.p_bad):
            return self.junk(mode)
        v = self.val(s, mode, plain, depth)
        if mode == 'python' and not plain and v['t'] in ('list', 'dict', 'set', 'inst') and self.p(self.p_cell):
            return self.cell(v)
        return v

    def seqval(self, items, own, mode, plain):
        r = self.rng
        if mode == 'strings':
            return S('x') if not items else items[0]
        if mode == 'json':
            return L(*items)
        x = r.random()
        kind = own
        if not plain and x < .35:
            kind = r.choice(['list', 'tuple', 'set', 'frozenset', 'iter', 'deque', 'values'])
        if kind in ('set', 'frozenset') and not all(self.hashable(i) for i in items):
            kind = 'list'
        if kind in ('set', 'frozenset'):
            items = self.dedup(items)
            v = {'t': kind, 'l': items}
            return self.cell(v) if kind == 'set' else v
        if kind == 'list':
            return L(*items)
        if kind == 'tuple':
            return T(*items)
        fail = r.choice([0, 1, len(items)]) if kind == 'iter' and self.p(.2) else -1
        return self.cell(ITB(kind, items, fail))

    def hashable(self, v):
        t = v['t']
        if t in ('tuple', 'frozenset'):
            return all(self.hashable(x) for x in v['l'])
        if t == 'ref':
            c = self.heap[v['r'] - 1]
            return c['t'] in ('obj',) or (c['t'] == 'inst' and c['c'] in MODEL_CLASSES)
        if t == 'inst':
            return v['c'] in MODEL_CLASSES
        return t in ('none', 'bool', 'int', 'big', 'float', 'str', 'bytes', 'enum', 'strsub', 'intsub', 'dec')

    def dedup(self, items):
        out, seen = [], set()
        for i in items:
            k = self.eqkey(i)
            if k not in seen:
                seen.add(k)
                out.append(i)
        return out

    @staticmethod
    def eqkey(v):
        t = v['t']
        if t == 'bool':
            return ('n', float(v['b']))
        if t in ('int', 'intsub'):
            return ('n', float(v['i']))
        if t == 'float':
            return ('n', v['q'] / 4)
        if t == 'dec':
            return ('n', float(v['s']))
        if t in ('str', 'strsub'):
            return ('s', v['s'])
        if t == 'enum':
            val = dict(ENUM_VALUES[v['c']])[v['n']]
            if v['c'] in ('EStr',):
                return ('s', val)
            if v['c'] in ('EInt', 'EFlo'):
                return ('n', float(val))
            return ('e', v['c'], v['n'])
        import json
        return ('o', json.dumps(v, sort_keys=True))

    def val(self, s, mode, plain, depth):
        r = self.rng
        t = s['type']
        d = depth + 1
        sub = lambda q: self.value(q, mode, plain, d)
        if mode == 'strings':
            if t == 'int':
                return S(str(r.choice(INTS)))
            if t == 'float':
                return S(r.choice(['1', '1.5', '0']))
            if t == 'bool':
                return S(r.choice(['true', '0', 'no']))
            if t == 'none':
                return S('')
            if t in ('any', 'str', 'bytes', 'is-instance', 'callable', 'function-plain'):
                return S(r.choice(['a', 'b', '1']))
        if t == 'int':
            return I(r.choice(INTS)) if plain or self.p(.6) else self.jnum(mode)
        if t == 'float':
            return F(r.choice([0.0, 1.0, 1.5, 2.5])) if plain or self.p(.6) else self.jnum(mode)
        if t == 'str':
            x = r.choice(['a', 'b', 'abc', '1', '', 'yes'])
            if mode == 'python' and not plain and self.p(.15):
                return r.choice([{'t': 'strsub', 's': x}, BY(x), E('EStr', 'X')])
            return S(x)
        if t == 'bool':
            return B(self.p(.5)) if plain or self.p(.7) else r.choice([S('true'), S('off'), I(1), I(0), F(1.0)])
        if t == 'none':
            return N
        if t == 'any':
            return self.scalar() if plain or self.p(.6) else self.junk(mode)
        if t == 'bytes':
            return BY(r.choice(['a', 'bc'])) if mode == 'python' else S('ab')
        if t == 'literal':
            v = r.choice(s['expected'])
            if mode == 'python':
                return v
            if v['t'] == 'enum' or v['t'] == 'bytes':
                return S('x')
            if mode == 'strings':
                return S({'str': v.get('s'), 'int': str(v.get('i')), 'bool': 'true'}.get(v['t'], 'x'))
            return v
        if t == 'enum':
            n, x = r.choice(ENUM_VALUES[s['cls']])
            if mode == 'python' and self.p(.4):
                return E(s['cls'], n)
            if s['cls'] == 'EFall' and self.p(.3):
                x = r.choice(['fall', 'badfall', 'other'])
            return py(x) if mode != 'strings' else S(str(x))
        if t == 'is-instance':
            c = s.get('cls') or r.choice(s['cls_list'])
            if mode == 'python':
                return {'int': I(1), 'str': S('a'), 'list': L(I(1)), 'Opaque': self.cell(dict(OBJ)), 'float': F(1.5), 'dict': M(),
                        'MA': INST('MA', [('a', I(1))], ['a']), 'AttrObj': INST('AttrObj', [('a', I(1))])}.get(c, I(1)) if not plain or c not in ('Opaque',) else I(1)
            return I(1)
        if t == 'callable':
            return CLS('int') if mode == 'python' else S('f')
        if t in ('list', 'set', 'frozenset'):
            n = r.choice([0, 1, 2, 2, 3, 4])
            q = s.get('items_schema', {'type': 'any'})
            items = [sub(q) for _ in range(n)]
            if t != 'list' and items and self.p(.2):
                items.append(items[0])
            if t != 'list' and plain:
                items = self.dedup([i for i in items if self.hashable(i)])
            return self.seqval(items, t, mode, plain)
        if t == 'tuple':
            its = s['items_schema']
            vi = s.get('variadic_item_index')
            seq = []
            for i, q in enumerate(its):
                seq += [q] * (r.choice([0, 1, 2, 3]) if i == vi else 1)
            if not plain and self.p(.2):
                seq = seq[:-1] if self.p(.6) else seq + [{'type': 'int'}]
            return self.seqval([sub(q) for q in seq], 'tuple', mode, plain)
        if t == 'dict':
            d_ = []
            for _ in range(r.choice([0, 1, 2, 2, 3])):
                if mode == 'python':
                    k = self.value(s.get('keys_schema', {'type': 'str'}), mode, plain or self.p(.7), d)
                    if not self.hashable(k):
                        k = S('a')
                else:
                    k = S(r.choice(KEYS + ['1', '2', 'true', '']))
                d_.append([k, sub(s.get('values_schema', {'type': 'any'}))])
            d_ = self.dd(d_)
            if mode == 'python' and not plain and self.p(.15):
                return self.cell({'t': 'map', 'd': d_})
            return {'t': 'dict', 'd': d_}
        if t == 'union':
            return sub(r.choice(s['choices'])['schema'])
        if t == 'tagged-union':
            c = r.choice(s['choices'])
            v = sub(c['schema'])
            dis = s['discriminator']
            tag = c['tag'] if mode == 'python' else self.jtag(c['tag'], mode)
            key = dis.get('s') or dis.get('key') or (dis['c'][0][0]['s'] if dis['k'] == 'choices' else None)
            if key:
                v = self.setkey(v, key, tag)
            elif dis['k'] == 'path':
                v = self.setkey(v, dis['p'][0]['s'], L(tag) if mode != 'strings' else tag)
            return v
        if t == 'nullable':
            if mode == 'strings':
                return sub(s['schema'])
            return N if self.p(.35) else sub(s['schema'])
        if t == 'default':
            if mode == 'python' and not plain and self.p(.06):
                return UNDEF
            return sub(s['schema'])
        if t in ('function-before', 'function-after', 'function-wrap', 'custom-error'):
            return sub(s['schema'])
        if t == 'function-plain':
            return self.scalar()
        if t == 'chain':
            return sub(s['steps'][0])
        if t == 'lax-or-strict':
            return sub(r.choice([s['lax_schema'], s['strict_schema']]))
        if t == 'json-or-python':
            return sub(s['json_schema'] if mode == 'json' else s['python_schema'])
        if t == 'json':
            if plain and self.p(.5):
                return S('{')
            v = self.value(s.get('schema', {'type': 'any'}), 'json', plain, d)
            return self.jsontext(v, mode)
        if t == 'typed-dict':
            v = {'t': 'dict', 'd': self.fvals(s['fields'], mode, plain, d)}
            if mode == 'python' and not plain and self.p(.08):
                return self.cell(dict(v, t='map'))
            return v
        if t == 'model':
            if s.get('root_model'):
                if mode == 'python' and self.p(.15):
                    return INST(s['cls'], [('root', sub(s['schema']))], ['root'])
                return sub(s['schema'])
            fs = self.unwrap(s['schema'])['fields']
            x = r.random()
            if mode == 'python' and x < .22:
                cls = s['cls'] if self.p(.7) else r.choice(['MA1', 'MA', 'MB'])
                d_ = [(f['name'], sub(f['schema'])) for f in fs]
                ex = [('q', I(1))] if self.p(.25) else None
                return INST(cls, d_, [f['name'] for f in fs if self.p(.7)], ex)
            if mode == 'python' and not plain and x < .32:
                d_ = self.fvals(fs, mode, plain, d)
                return INST(r.choice(['AttrObj', 'AttrSub']), [(k['s'], y) for k, y in d_ if k['t'] == 'str' and k['s'].isalpha()])
            if mode == 'python' and not plain and x < .36:
                d_ = self.fvals(fs, mode, plain, d)
                return T(INST('AttrObj', [(k['s'], y) for k, y in d_[:1] if k['t'] == 'str' and k['s'].isalpha()]), {'t': 'dict', 'd': d_[1:]})
            return {'t': 'dict', 'd': self.fvals(fs, mode, plain, d)}
        if t == 'model-fields':
            return {'t': 'dict', 'd': self.fvals(s['fields'], mode, plain, d)}
        if t == 'dataclass':
            fs = s['schema']['fields']
            x = r.random()
            if mode == 'python' and x < .25:
                cls = s['cls'] if self.p(.75) or s['cls'] != 'DA' else 'DA1'
                names = {'DB': ['a', 'b'], 'DA1': ['a', 'b', 'c', 'd']}.get(cls, KEYS)
                by = {f['name']: f for f in fs}
                return INST(cls, [(n, sub(by[n]['schema']) if n in by else I(1)) for n in names])
            if mode == 'python' and not plain and x < .45:
                return self.argsval([(f, not f.get('kw_only', True)) for f in fs if f.get('init', True)], mode, 'validation_alias', d)
            return {'t': 'dict', 'd': self.fvals(fs, mode, plain, d)}
        if t == 'dataclass-args':
            return {'t': 'dict', 'd': self.fvals(s['fields'], mode, plain, d)}
        if t == 'arguments':
            return self.argsfor(s, mode, plain, d)
        if t == 'call':
            return self.argsfor(s['arguments_schema'], mode, plain, d)
        if t == 'definitions':
            for q in s['definitions']:
                self.refs[q['ref']] = q
            return sub(s['schema'])
        if t == 'definition-ref':
            if s['schema_ref'] not in self.refs or depth > 4:
                return N if mode != 'strings' else S('')
            return sub(self.refs[s['schema_ref']])
        raise KeyError(t)

    def jsontext(self, v, mode):
        from driver_json import jdump
        if not jsonable(v):
            v = I(1)
        txt = jdump(v)
        ok = True
        if self.p(.1):
            txt, ok = txt + '}', False
        if not any(j['s'] == txt for j in self.jtexts):
            self.jtexts.append({'s': txt, 'ok': ok, 'p': True, 'v': v})
        return BY(txt) if mode == 'python' and self.p(.2) and txt.isascii() else S(txt)

    def jnum(self, mode):
        v = self.num()
        return v if mode == 'python' or v['t'] != 'enum' else I(1)

    def jtag(self, tag, mode):
        if tag['t'] == 'enum':
            return S('x')
        if mode == 'strings':
            return S(str(tag.get('s', tag.get('i', 'true'))))
        return tag

    def setkey(self, v, key, x):
        if v['t'] == 'ref':
            c = self.heap[v['r'] - 1]
            self.setkey(c, key, x)
            return v
        if v['t'] in ('dict', 'map', 'inst'):
            if self.p(.06) or v['t'] == 'inst' and v['c'] == 'DS' and key not in KEYS:
                return v
            v['d'] = [[k, y] for k, y in v['d'] if not (k['t'] == 'str' and k['s'] == key)] + [[S(key), x]]
            if self.p(.5):
                v['d'] = v['d'][-1:] + v['d'][:-1]
            if v.get('c') == 'DS':
                v['d'].sort(key=lambda e: e[0]['s'])
        return v

    def dd(self, d):
        out, seen = [], set()
        for k, v in d:
            e = self.eqkey(k)
            if e not in seen:
                seen.add(e)
                out.append([k, v])
        return out

    def place(self, d, path, v, mode):
        """Put v into the pair list at an alias path."""
        k = path[0]['s']
        if len(path) == 1:
            d.append([S(k), v])
            return
        cur = v
        for it in reversed(path[1:]):
            if 's' in it:
                cur = {'t': 'dict', 'd': [[S(it['s']), cur]]}
            else:
                n = it['n']
                if mode == 'strings':
                    cur = {'t': 'dict', 'd': [[S(str(n)), cur]]}
                    continue
                items = [I(9)] * 3
                if n >= 0:
                    items[n] = cur
                else:
                    items[len(items) + n] = cur
                if mode == 'python' and self.p(.3):
                    cur = T(*items)
                else:
                    cur = L(*items)
        d.append([S(k), cur])

    def fvals(self, fs, mode, plain, d, ak='validation_alias'):
        r = self.rng
        out = []
        for f in fs:
            if self.p(.15 if 'default' in f['schema']['type'] else .06) and not plain:
                continue
            v = self.value(f['schema'], mode, plain, d)
            x = r.random()
            if ak in f and x < .7:
                a = f[ak]
                ps = [[{'s': a['s']}]] if a['k'] == 'str' else [a['p']] if a['k'] == 'path' else a['c']
                self.place(out, r.choice(ps), v, mode)
                if self.p(.15):
                    out.append([S(f['name']), self.value(f['schema'], mode, plain, d)])
            else:
                out.append([S(f['name']), v])
        if not plain and self.p(.25):
            k = S(r.choice(['q', 'z', 'd']))
            if mode == 'python' and self.p(.25):
                k = r.choice([I(1), N, B(True), BY('q')])
            out.append([k, self.scalar() if mode != 'strings' else S('1')])
        if not plain and self.p(.3):
            r.shuffle(out)
        return self.dd(out)

    def argsval(self, params, mode, ak, d):
        """ArgsKwargs for (field, positional) parameters."""
        r = self.rng
        pos, kw = [], []
        k = r.randint(0, len(params))
        for i, (f, p) in enumerate(params):
            if self.p(.08):
                continue
            v = self.value(f['schema'], mode, False, d)
            if p and len(pos) == i and i < k:
                pos.append(v)
                if self.p(.05):
                    kw.append([S(f['name']), v])
            elif ak in f and f[ak]['k'] == 'str' and self.p(.7):
                kw.append([S(f[ak]['s']), v])
            else:
                kw.append([S(f['name']), v])
        if self.p(.12):
            pos.append(self.scalar())
        if self.p(.15):
            kw.append([S(r.choice(['q', 'z'])), self.scalar()])
        kw = self.dd(kw)
        v = {'t': 'args', 'l': pos, 'hk': bool(kw), 'd': kw}
        return v

    def argsfor(self, s, mode, plain, d):
        r = self.rng
        params = [(f, f.get('mode') != 'keyword_only') for f in s['arguments_list']]
        if mode == 'python':
            v = self.argsval(params, mode, 'alias', d)
            if not v['d'] and self.p(.5):
                return (L if self.p(.4) else T)(*v['l'])
            if not v['l'] and self.p(.5):
                return {'t': 'dict', 'd': v['d']}
            return v
        if mode == 'strings':
            return S('x')
        if self.p(.5):
            return L(*[self.value(f['schema'], mode, plain, d) for f, p in params])
        return {'t': 'dict', 'd': self.fvals(s['arguments_list'], mode, plain, d, 'alias')}

    # --------------------------------------------------------------------- cases
    def topcfg(self):
        return self.inner_cfg() if self.p(.3) else {}

    def op(self, s, modes=('python', 'python', 'json', 'strings'), mode=None, **kw):
        r = self.rng
        mode = mode or r.choice(modes)
        for _ in range(4):
            x = self.value(s, mode)
            if mode != 'json' or jsonable(x):
                break
        else:
            x = self.scalar()
        o = val(x, mode)
        if mode == 'python' and self.p(.02):
            o['op'] = 'isinstance'
        if self.p(.25):
            o['strict'] = r.choice(['true', 'true', 'false'])
        if o['op'] == 'validate':
            if mode == 'python' and self.p(.2):
                o['from_attributes'] = r.choice(['true', 'true', 'false'])
            if self.p(.12):
                o['by_name'] = 'true'
                if self.p(.5):
                    o['by_alias'] = r.choice(['true', 'false'])
            elif self.p(.05):
                o['by_alias'] = r.choice(['true', 'false'])
            if self.p(.15):
                o['ctx'] = M(('k', I(1)))
            if self.partial and self.p(.6):
                o['partial'] = r.choice(['on', 'on', 'trailing'])
        o.update(kw)
        return o


def json_value(v):
    if v is None:
        return N
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, (int, float)):
        if abs(v) >= 10**8 or v * 4 != int(v * 4) or (v == 0 and str(v)[0] == '-'):
            raise ValueError
        return I(v) if isinstance(v, int) else F(v)
    if isinstance(v, str):
        return S(v)
    if isinstance(v, list):
        return L(*[json_value(x) for x in v])
    return M(*[(S(k), json_value(x)) for k, x in v.items()])


def all_texts(x, out):
    if isinstance(x, dict):
        for k in ('s', 'y'):
            if isinstance(x.get(k), str):
                out.add(x[k])
        for v in x.values():
            all_texts(v, out)
    elif isinstance(x, list):
        for v in x:
            all_texts(v, out)


def json_texts(c, texts):
    """What the JSON texts among the strings of a case stand for."""
    import json
    have = {t['s'] for t in texts}
    found = set()
    all_texts([c['schemas'], c['ops'], c['heap']], found)
    for t in sorted(found - have):
        try:
            v = json_value(json.loads(t))
        except (ValueError, OverflowError):
            continue
        texts.append({'s': t, 'ok': True, 'p': True, 'v': v})
    return texts


def nested(rng, n, nops=8, modes=('python', 'python', 'json', 'strings'), **kw):
    out = []
    for _ in range(n):
        g = G(rng, **kw)
        g.part_off = False
        s = g.schema()
        cfg = g.topcfg()
        if g.part_off:
            g.partial = False
        ops = [g.op(s, modes) for _ in range(nops)]
        c = case(s, ops, heap=g.heap, cfg=cfg or None)
        if '"json"' in str(s).replace("'", '"'):
            c['jtexts'] = json_texts(c, g.jtexts)
        out.append(c)
    return out
