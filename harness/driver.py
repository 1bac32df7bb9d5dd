"""Runs cases against pydantic_core and records what happened.

usage: driver.py CASES OUT [START]     one JSON record per line
"""
from __future__ import annotations
import asyncio
import json
import sys
import threading
import warnings

from world import *
from driver_pattern import pattern_src
from driver_json import jdump
from weave import Weave
from pool import Hooks
from pydantic_core import (
    ArgsKwargs, PydanticCustomError, PydanticKnownError, PydanticOmit, PydanticSerializationError,
    PydanticSerializationUnexpectedValue, PydanticUseDefault, SchemaError, SchemaSerializer, SchemaValidator,
    ValidationError, from_json, to_json, to_jsonable_python,
)

try:
    from pydantic_core._pydantic_core import PanicException  # type: ignore
except ImportError:
    PanicException = None

SCHEMA_KEYS = {'schema', 'items_schema', 'keys_schema', 'values_schema', 'extras_schema', 'var_args_schema',
               'var_kwargs_schema', 'lax_schema', 'strict_schema', 'json_schema', 'python_schema', 'steps',
               'return_schema', 'arguments_schema', 'definitions', 'keys_schema'}
TAGGED = {'le', 'lt', 'ge', 'gt', 'multiple_of', 'default', 'tz_constraint'}


def alias(a):
    if a['k'] == 'str':
        return a['s']
    if a['k'] == 'path':
        return [p['s'] if 's' in p else p['n'] for p in a['p']]
    return [[p['s'] if 's' in p else p['n'] for p in c] for c in a['c']]


def snapshot(o):
    if isinstance(o, dict):
        return ('d', [(k, snapshot(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snapshot(v) for v in o])
    return id(o)


def nesting(v):
    n = 1
    while isinstance(v, list) and v:
        v = v[0]
        n += 1
    return n


class Driver:
    def __init__(self, case):
        self.case = case
        self.w = World(case['heap'])
        Hooks.world = self.w
        self.validators = []
        self.serializers = []
        self.py_schemas = []
        self.prebuilt = []
        self.nested = set()
        self.attached = []

    # ------------------------------------------------------------- user functions
    def info(self, info):
        r = {'n': 1}
        for k in ('mode', 'field_name'):
            try:
                v = getattr(info, k)
            except AttributeError:
                continue
            if v is not None:
                r[k] = v
        try:
            if info.context is not None:
                r['ctx'] = self.w.enc(info.context)
        except AttributeError:
            pass
        try:
            if info.data is not None:
                r['data'] = self.w.enc(dict(info.data))
        except AttributeError:
            pass
        return r

    def again(self, f):
        """Call the library from inside one of its calls."""
        t = threading.get_ident()
        if t in self.nested:
            return
        self.nested.add(t)
        try:
            r = self.run_op(f['re'])
        finally:
            self.nested.discard(t)
        T = lambda *l: {'t': 'tuple', 'l': list(l)}
        S = lambda s: {'t': 'str', 's': s}
        if r['k'] == 'ok':
            m = T(S('ok'), r['v'])
        elif r['k'] == 'errs':
            m = T(S('errs'), *[S(e['ty']) for e in r['errs']])
        else:
            m = T(S('exc'), S(r['c'])) if r['k'] == 'exc' else T(S(r['k']), S(r.get('m', '')))
        self.w.entry({'f': f['f'] + ':re', 'a': [m], 'i': {'n': 0}})

    def act(self, f, x):
        """Behaviour of a user function on a value (handler-less kinds)."""
        w, b = self.w, f['b']
        if b == 'reenter':
            self.again(f)
            return x
        if 'when' in f:
            wh = w.dec(f['when'])
            if type(x) is not type(wh) or x != wh:
                return x
        if b == 'id':
            return x
        if b == 'const':
            return w.dec(f['v'])
        if b == 'wrap_list':
            return [x]
        if b == 'raise_value':
            raise ValueError('bad ' + f['f'])
        if b == 'raise_assert':
            raise AssertionError('bad ' + f['f'])
        if b == 'raise_custom':
            raise PydanticCustomError('my_err', 'msg {k}', {'k': 1})
        if b == 'raise_known':
            raise PydanticKnownError('int_type')
        if b == 'raise_omit':
            raise PydanticOmit
        if b == 'raise_usedef':
            raise PydanticUseDefault
        if b == 'raise_other':
            raise UserError('boom ' + f['f'])
        if b == 'raise_type':
            raise TypeError('boom ' + f['f'])
        if b == 'raise_runtime':
            raise RuntimeError('boom ' + f['f'])
        if b == 'mutate_append':
            x.append(1)
            return x
        raise KeyError(b)

    def act_wrap(self, f, x, h):
        w, b = self.w, f['b']
        if b == 'call':
            return h(x)
        if b == 'reenter':
            self.again(f)
            return h(x)
        if b == 'call_const':
            return h(w.dec(f['v']))
        if b == 'call_list':
            return [h(x)]
        if b == 'catch':
            try:
                return h(x)
            except ValidationError:
                return w.dec(f['v'])
        if b == 'catch_retry':
            try:
                return h(x)
            except ValidationError:
                return h(w.dec(f['v']))
        if b == 'twice':
            h(x)
            return h(x)
        if b == 'loc':
            return h(x, f['loc'])
        return self.act(f, x)

    def fn(self, f, kind):
        """kind: val (value[, info]), wrap (value, handler[, info]), factory ([data]), plain1 (value)"""
        w = self.w
        if kind == 'val':
            if f.get('info'):
                def g(x, info):
                    w.note(f['f'], [x], self.info(info))
                    return self.act(f, x)
            else:
                def g(x):
                    w.note(f['f'], [x])
                    return self.act(f, x)
        elif kind == 'wrap':
            if f.get('info'):
                def g(x, h, info):
                    w.note(f['f'], [x], self.info(info))
                    return self.act_wrap(f, x, h)
            else:
                def g(x, h):
                    w.note(f['f'], [x])
                    return self.act_wrap(f, x, h)
        elif kind == 'factory':
            if f.get('data'):
                def g(data):
                    w.note(f['f'], [dict(data)])
                    if f['b'] == 'get':
                        return data[f['key']]
                    if f['b'] == 'new_list':
                        return []
                    return self.act(f, None)
            else:
                def g():
                    w.note(f['f'], [])
                    if f['b'] == 'new_list':
                        return []
                    return self.act(f, None)
        elif kind == 'call':
            def g(*a, **k):
                w.note(f['f'], [tuple(a), k])
                if f['b'] == 'pack':
                    return [list(a), k]
                return self.act(f, a[0] if a else None)
        elif kind == 'disc':
            def g(x):
                w.note(f['f'], [x])
                if f['b'] == 'key':
                    if isinstance(x, dict):
                        return x.get(f['key'])
                    return getattr(x, f['key'], None)
                if f['b'] == 'type':
                    return type(x).__name__
                return self.act(f, x)
        elif kind == 'missing':
            def g(x):
                w.note(f['f'], [x])
                return self.act(f, x)
        else:
            raise KeyError(kind)
        g._label = f['f']
        g.__name__ = f['f']
        g.__qualname__ = f['f']
        return g

    # ------------------------------------------------------------------- schemas
    def schema(self, s):
        w, out, t = self.w, {}, s['type']
        for k, v in s.items():
            if k in SCHEMA_KEYS:
                out[k] = [self.schema(x) for x in v] if isinstance(v, list) else self.schema(v)
            elif k in TAGGED:
                out[k] = w.dec(v)
            elif k == 'expected':
                out[k] = [w.dec(x) for x in v]
            elif k == 'pattern':
                src = pattern_src(v)
                out[k] = re.compile(src) if v['comp'] else src
            elif k == 'choices':
                if t == 'tagged-union':
                    out[k] = {w.dec(c['tag']): self.schema(c['schema']) for c in v}
                else:
                    out[k] = [(self.schema(c['schema']), c['label']) if 'label' in c else self.schema(c['schema'])
                              for c in v]
            elif k == 'fields':
                if t in ('typed-dict', 'model-fields'):
                    out[k] = {f['name']: self.field(f, t) for f in v}
                else:
                    out[k] = [dict(self.field(f, t), name=f['name']) if isinstance(f, dict) else f for f in v]
            elif k in ('computed_fields',):
                out[k] = [self.computed(c) for c in v]
            elif k == 'arguments_list':
                out['arguments_schema'] = [dict(self.field(f, t), name=f['name']) for f in v]
            elif k == 'function':
                if t == 'call':
                    out[k] = self.fn(v, 'call')
                else:
                    out[k] = {'type': 'with-info' if v.get('info') else 'no-info',
                              'function': self.fn(v, 'wrap' if t == 'function-wrap' else 'val')}
                    if 'fname' in v:
                        out[k]['field_name'] = v['fname']
            elif k == 'default_factory':
                out[k] = self.fn(v, 'factory')
                if v.get('data'):
                    out['default_factory_takes_data'] = True
            elif k == 'missing':
                out[k] = self.fn(v, 'missing')
            elif k == 'discriminator':
                out[k] = self.fn(v, 'disc') if v['k'] == 'fn' else alias(v)
            elif k == 'cls_list':
                out['cls'] = tuple(CLASSES[c] for c in v)
            elif k in ('generic_origin',):
                out[k] = CLASSES[v]
            elif k == 'cls':
                out[k] = CLASSES[v]
                if t == 'enum':
                    out['members'] = list(CLASSES[v])
                    if v in ('EStr', 'EInt', 'EFlo') and 'sub_type' not in s:
                        out['sub_type'] = {'EStr': 'str', 'EInt': 'int', 'EFlo': 'float'}[v]
                    if v == 'EFall':
                        out['missing'] = CLASSES[v]._missing_
            elif k == 'serialization':
                out[k] = self.ser_schema(v)
            elif k == 'custom_error_context':
                out[k] = {a: w.dec(b) for a, b in v}
            elif k == 'config':
                out[k] = dict(v)
            else:
                out[k] = v
        if t == 'dataclass' and 'cls_name' not in out:
            out['fields'] = list(out.get('fields', []))
        if out.pop('prebuilt', None):
            self.prebuild(s, out)
        return out

    def field(self, f, t):
        out = {}
        for k, v in f.items():
            if k == 'name':
                continue
            if k == 'schema':
                out[k] = self.schema(v)
            elif k in ('validation_alias', 'alias'):
                out[k] = alias(v)
            else:
                out[k] = v
        if t == 'typed-dict':
            out['type'] = 'typed-dict-field'
        elif t == 'model-fields':
            out['type'] = 'model-field'
        elif t == 'dataclass-args':
            out['type'] = 'dataclass-field'
        return out

    def computed(self, c):
        out = {k: v for k, v in c.items() if k != 'return_schema'}
        out['type'] = 'computed-field'
        out['return_schema'] = self.schema(c['return_schema'])
        return out

    def ser_schema(self, v):
        return serx.ser_schema(self, v)

    # ----------------------------------------------------------------------- ops
    def loc(self, loc):
        return [{'s': str(i)} if isinstance(i, str) else {'n': i} for i in loc]

    def errs(self, e):
        out = []
        for d in e.errors(include_url=False):
            ctx = d.get('ctx', {})
            out.append({'ty': d['type'], 'loc': self.loc(d['loc']), 'inp': self.w.enc(d['input']),
                        'ctx': [[k, self.w.enc(ctx[k])] for k in sorted(ctx)], 'msg': d['msg']})
        return out

    def exc(self, e):
        if type(e).__name__ == 'PanicException':
            return {'k': 'panic', 'm': str(e)[:300]}
        r = {'k': 'exc', 'c': type(e).__name__}
        if isinstance(e, UserError) or str(e).startswith('boom'):
            r['m'] = str(e)
        else:
            r['m'] = ''
            r['x'] = str(e)[:200]
        return r

    def catch(self, thunk, keep=None):
        try:
            v = thunk()
        except ValidationError as e:
            out = {'k': 'errs', 'errs': self.errs(e), 'title': e.title}
            if self.case.get('views'):
                out['views'] = self.views(e)
            return out
        except BaseException as e:
            return self.exc(e)
        out = {'k': 'ok', 'v': self.w.enc(v)}
        if keep is not None:
            keep(v)
        return out

    def views(self, e):
        import pickle, copy
        base = e.errors(include_url=False)
        out = {'count': e.error_count(), 'n': len(base)}
        # each public view of the error must describe the same list
        strip = lambda ls: [(d['type'], d['loc'], d['msg']) for d in ls]
        full = e.errors()
        out['urls'] = all(d.get('url', '').endswith('/v/' + d['type']) or d['type'] == 'my_err' or 'url' not in d
                          for d in full) and strip(full) == strip(base)
        noctx = e.errors(include_url=False, include_context=False)
        noinp = e.errors(include_url=False, include_input=False)
        out['opts'] = strip(noctx) == strip(base) == strip(noinp) and all('ctx' not in d for d in noctx) and all(
            'input' not in d for d in noinp)
        try:
            js = json.loads(e.json(include_url=False))
            out['json'] = [(d['type'], tuple(d['loc']), d['msg']) for d in js] == [
                (d['type'], d['loc'], d['msg']) for d in base]
        except BaseException as x:
            out['json'] = type(x).__name__ in ('PydanticSerializationError', 'ValueError')
        text = str(e)
        head = text.split('\n')[0]
        out['head'] = head == '%d validation error%s for %s' % (len(base), '' if len(base) == 1 else 's', e.title)
        out['text'] = all(d['msg'] in text for d in base) and text.count('[type=') >= len(base)
        out['repr'] = repr(e) == text
        try:
            p = pickle.loads(pickle.dumps(e))
            noinp = lambda t: re.sub(r'input_value=.*?, input_type', '', t, flags=re.S)
            out['pickle'] = noinp(str(p)) == noinp(text) and strip(p.errors(include_url=False)) == strip(base) and p.title == e.title
        except BaseException as x:
            out['pickle'] = type(x).__name__ in ('PicklingError', 'TypeError', 'AttributeError')
        return out

    def kw(self, op, names):
        out = {}
        for n in names:
            v = op.get(n, 'none')
            if v != 'none':
                out[n] = v == 'true' if v in ('true', 'false') else v
        return out

    def jtext(self, v):
        return jdump(v)

    def run_op(self, op):
        w, o = self.w, op['op']
        if o == 'validate':
            v = self.validators[op['s'] - 1]
            keep = w.scribble if op.get('scribble') else None
            kw = self.kw(op, ('strict', 'from_attributes', 'by_alias', 'by_name'))
            if 'ctx' in op:
                kw['context'] = w.dec(op['ctx'])
            part = {'off': False, 'on': True, 'trailing': 'trailing-strings'}[op.get('partial', 'off')]
            if part:
                kw['allow_partial'] = part
            if op['mode'] == 'python':
                if 'self' in op:
                    kw['self_instance'] = w.dec(op['self'])
                x = w.dec(op['x'])
                if op.get('measure'):
                    return self.catch(lambda: nesting(v.validate_python(x, **kw)), keep)
                return self.catch(lambda: v.validate_python(x, **kw), keep)
            if op['mode'] == 'json':
                if 'self' in op:
                    kw['self_instance'] = w.dec(op['self'])
                text = op['text'] if 'text' in op else self.jtext(op['x'])
                form = op.get('form', 'str')
                data = text if form == 'str' else text.encode() if form == 'bytes' else bytearray(text.encode())
                return self.catch(lambda: v.validate_json(data, **kw), keep)
            kw.pop('from_attributes', None)
            x = w.dec(op['x'])
            return self.catch(lambda: v.validate_strings(x, **kw), keep)
        if o == 'isinstance':
            v = self.validators[op['s'] - 1]
            kw = self.kw(op, ('strict',))
            x = w.dec(op['x'])
            return self.catch(lambda: v.isinstance_python(x, **kw))
        if o == 'both':
            return Weave(w, [lambda: self.run_op(op['a']), lambda: self.run_op(op['b'])], op['sched']).run()
        if o == 'pull':
            gens = [x for x in w.objs if type(x).__name__ == 'ValidatorIterator']
            if op['g'] > len(gens):
                return self.catch(lambda: None)

            def pull():
                it = gens[op['g'] - 1]
                assert iter(it) is it
                try:
                    return ('item', next(it))
                except StopIteration:
                    return ('stop',)
            return self.catch(pull)
        if o == 'push':
            return self.catch(lambda: w.dec(op['m']).append(w.dec(op['x'])))
        if o == 'default':
            v = self.validators[op['s'] - 1]

            def run():
                r = v.get_default_value()
                return ('none',) if r is None else ('some', r.value)
            return self.catch(run, w.scribble if op.get('scribble') else None)
        if o == 'assign':
            v = self.validators[op['s'] - 1]
            kw = self.kw(op, ('strict', 'from_attributes', 'by_alias', 'by_name'))
            m = w.dec(op['m'])
            x = w.dec(op['x'])
            return self.catch(lambda: v.validate_assignment(m, op['field'], x, **kw))
        return serx.run_op(self, op)

    def build(self):
        for s, cfg in zip(self.case['schemas'], self.case['cfg']):
            if 'only_ser' not in s:
                try:
                    self.validators.append(self.mk(SchemaValidator, s, cfg))
                except BaseException as e:
                    return {'c': type(e).__name__, 'm': str(e)[:400]}
            else:
                self.validators.append(None)
            if s.get('ser'):
                try:
                    self.serializers.append(self.mk(SchemaSerializer, s, cfg))
                    if 'attach' in s:
                        CLASSES[s['attach']].__pydantic_serializer__ = self.serializers[-1]
                        self.attached.append(CLASSES[s['attach']])
                except BaseException as e:
                    return {'c': type(e).__name__, 'm': str(e)[:400]}
            else:
                self.serializers.append(None)
        return None

    def mk(self, cls, s, cfg):
        c = {k: v for k, v in cfg.items() if k != 'has'}
        py = self.schema(s['v'])
        self.py_schemas.append((py, snapshot(py)))
        v = cls(py, c or None)
        if s.get('reduce'):
            f, args = v.__reduce__()
            v = f(*args)
        return v

    def prebuild(self, s, out):
        cls = out['cls']
        v = SchemaValidator(out)
        try:
            z = SchemaSerializer(out)
        except Exception:  # some schemas have no serializer of their own
            z = None
        cls.__pydantic_validator__, cls.__pydantic_serializer__, cls.__pydantic_complete__ = v, z, True
        self.prebuilt.append(cls)

    def forget(self):
        for cls in self.prebuilt:
            for k in ('__pydantic_validator__', '__pydantic_serializer__', '__pydantic_complete__'):
                if k in cls.__dict__:
                    delattr(cls, k)
        self.prebuilt.clear()

    def run(self):
        try:
            return self.run1()
        finally:
            for c in self.attached:
                del c.__pydantic_serializer__

    def run1(self):
        case, w = self.case, self.w
        out = {'id': case['id']}
        try:
            err = self.build()
        finally:
            self.forget()
        if err:
            out['build'] = err['c']
            out['buildm'] = err['m']
            out['outs'] = []
            return out
        out['build'] = 'ok'
        outs = []
        for op in case['ops']:
            w.log.clear()
            before = w.state()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                r = self.run_op(op)
            r['log'] = [dict(x) for x in w.log]
            after = w.state()
            r['mut'] = [{'r': i + 1, 'v': b} for i, (a, b) in enumerate(zip(before, after)) if a != b]
            if op['op'] in ('to_python', 'to_json', 'm_to_json', 'm_to_jsonable'):
                r['em'] = [serx.parse_warning(str(x.message)) for x in ws]
            if ws:
                r['warns'] = [str(x.message)[:500] for x in ws]
            outs.append(r)
        out['outs'] = outs
        if any(snapshot(py) != snap for py, snap in self.py_schemas):
            out['schmut'] = 'a schema was modified'
        return out


import serx  # noqa: E402


def main():
    src, dst = sys.argv[1], sys.argv[2]
    start = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    with open(src) as f, open(dst, 'a') as g:
        for n, line in enumerate(f):
            if n < start:
                continue
            case = json.loads(line)
            d = Driver(case)
            out = d.run()
            case['build'] = out['build']
            case['outs'] = out['outs']
            if 'schmut' in out:
                case['schmut'] = out['schmut']
            if 'buildm' in out:
                case['buildm'] = out['buildm']
            g.write(json.dumps(case) + '\n')
            g.flush()


if __name__ == '__main__':
    main()
