"""The driver's part of P35: carry out any call, and record only how it ends."""
from __future__ import annotations
import collections.abc
import copy
import datetime
import decimal
import enum
import json
import pickle
import uuid
import warnings

import pydantic_core as pc
from pydantic_core import SchemaSerializer, SchemaValidator, ValidationError

from world import CLASSES, UserError


def boom(*a, **k):
    raise UserError('boom')


class OddDict(dict):
    items = keys = values = get = __getitem__ = boom


class OddList(list):
    __iter__ = __len__ = __getitem__ = boom


class OddStr(str):
    __str__ = __repr__ = __hash__ = boom


class OddInt(int):
    __int__ = __index__ = __str__ = boom


class OddFloat(float):
    __float__ = __str__ = boom


class OddBytes(bytes):
    __iter__ = __len__ = boom


class OddMap(collections.abc.Mapping):
    __iter__ = __getitem__ = __len__ = boom


class OddItems(collections.abc.Mapping):
    def __len__(self):
        return 2

    def __iter__(self):
        return iter(['a', 'b'])

    def __getitem__(self, k):
        return 1

    def items(self):
        return [1, (1,), (1, 2, 3)]


class OddEq:
    __eq__ = __lt__ = boom

    def __hash__(self):
        return 1


class OddHash:
    __hash__ = boom


class OddAttr:
    def __getattr__(self, n):
        raise UserError('boom')


class OddRepr:
    __repr__ = __str__ = boom


class OddReprType:
    def __repr__(self):
        return 5


class OddIter:
    __iter__ = boom


class OddNext:
    def __iter__(self):
        return self

    __next__ = boom


class OddLen:
    def __len__(self):
        return -5

    def __iter__(self):
        return iter([1])

    def __getitem__(self, i):
        return 1


class OddProp:
    @property
    def __class__(self):
        raise UserError('boom')

    @property
    def __dict__(self):
        raise UserError('boom')


class OddEnum(enum.Enum):
    a = 'a'

    @property
    def value(self):
        raise UserError('boom')


class OddTz(datetime.tzinfo):
    def utcoffset(self, dt):
        raise UserError('boom')

    tzname = dst = utcoffset


class BigTz(datetime.tzinfo):
    def utcoffset(self, dt):
        return datetime.timedelta(hours=23, minutes=59, seconds=59, microseconds=999999)

    def tzname(self, dt):
        return 'x'

    dst = utcoffset


class Meta(type):
    __instancecheck__ = __subclasscheck__ = __hash__ = boom


class OddClass(metaclass=Meta):
    pass


class Slots:
    __slots__ = ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__')


class NoSlots:
    __slots__ = ()


def deep(n, f):
    x = f(None)
    for _ in range(n):
        x = f(x)
    return x


def loop_list():
    x = [1]
    x.append(x)
    return x


def loop_dict():
    x = {'a': 1}
    x['b'] = x
    return x


def loop_model():
    m = CLASSES['MA'].__new__(CLASSES['MA'])
    object.__setattr__(m, '__dict__', {'a': m})
    return m


def odd_error():
    e = None
    try:
        SchemaValidator({'type': 'int'}).validate_python('x')
    except ValidationError as q:
        e = q
    return e


ODD = {
    'surrogate': lambda: '\ud800', 'surrogate2': lambda: 'a\udfffb', 'nul': lambda: 'a\0b', 'long': lambda: 'a' * 5000, 'longdigits': lambda: '1' * 5000,
    'emoji': lambda: '\U0001f600' * 30, 'cyr': lambda: '\u0436' * 40, 'mix': lambda: 'a' + '\u20ac' * 33, 'bom': lambda: '\ufeff1', 'tab': lambda: '\t\n', 'rtl': lambda: '\u202e',
    'dict': lambda: OddDict(a=1), 'list': lambda: OddList([1, 2]), 'str': lambda: OddStr('a'), 'int': lambda: OddInt(3), 'float': lambda: OddFloat(1.5),
    'bytes': lambda: OddBytes(b'ab'), 'map': OddMap, 'items': OddItems, 'eq': OddEq, 'hash': OddHash, 'attr': OddAttr, 'repr': OddRepr, 'reprtype': OddReprType,
    'iter': OddIter, 'next': OddNext, 'len': OddLen, 'prop': OddProp, 'enum': lambda: OddEnum.a, 'tz': lambda: datetime.datetime(2020, 1, 1, tzinfo=OddTz()),
    'timetz': lambda: datetime.time(1, tzinfo=OddTz()), 'bigtz': lambda: datetime.datetime(2020, 1, 1, tzinfo=BigTz()), 'class': lambda: OddClass,
    'slots': Slots, 'noslots': NoSlots, 'type': lambda: type, 'object': object, 'lambda': lambda: (lambda *a, **k: 1), 'boom': lambda: boom,
    'dec': lambda: decimal.Decimal('1e999999'), 'decnan': lambda: decimal.Decimal('sNaN'), 'decinf': lambda: decimal.Decimal('-inf'), 'dec1': lambda: decimal.Decimal('1.10'),
    'uuid': lambda: uuid.UUID(int=5), 'cx': lambda: complex('nan+infj'), 'cx1': lambda: 1 + 2j, 'date': lambda: datetime.date.min, 'dtmax': lambda: datetime.datetime.max,
    'dtutc': lambda: datetime.datetime.max.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=-23))), 'tdmax': lambda: datetime.timedelta.max, 'tdmin': lambda: datetime.timedelta.min,
    'time': lambda: datetime.time.max, 'inf': lambda: float('inf'), 'nan': lambda: float('nan'), '-inf': lambda: float('-inf'), 'huge': lambda: 10 ** 400, '-huge': lambda: -10 ** 400, 'max': lambda: 2 ** 63,
    'min': lambda: -2 ** 63, '-max': lambda: -2 ** 63 - 1, 'u64': lambda: 2 ** 64, 'small': lambda: 5e-324, 'f1e308': lambda: 1.7e308, '-0': lambda: -0.0,
    'deeplist': lambda: deep(400, lambda x: [x]), 'deepdict': lambda: deep(400, lambda x: {'a': x}), 'deeper': lambda: deep(3000, lambda x: [x]), 'looplist': loop_list, 'loopdict': loop_dict, 'loopmodel': loop_model,
    'gen': lambda: (i for i in range(3)), 'genboom': lambda: (1 // (1 - i) for i in range(3)), 'range': lambda: range(5), 'memory': lambda: memoryview(b'ab'), 'bytearray': lambda: bytearray(b'1'),
    'nonutf': lambda: b'\xff\xfe', 'deque': lambda: collections.deque([1, 2]), 'od': lambda: collections.OrderedDict(a=1), 'chain': lambda: collections.ChainMap({'a': 1}), 'proxy': lambda: type.__dict__['__dict__'].__get__(int),
    'url': lambda: pc.Url('https://u:p@ex.com:81/p?q=1#f'), 'murl': lambda: pc.MultiHostUrl('redis://a:1,b:2/0'), 'undef': lambda: pc.PydanticUndefined, 'err': odd_error, 'exc': lambda: ValueError('x'),
    'args': lambda: pc.ArgsKwargs((1, 'a'), {'a': 1, 'b': 2}), 'args1': lambda: pc.ArgsKwargs((), None), 'some': lambda: SchemaValidator({'type': 'default', 'schema': {'type': 'int'}, 'default': 1}).get_default_value(),
    'vgen': lambda: SchemaValidator({'type': 'generator', 'items_schema': {'type': 'int'}}).validate_python(['x', 1]), 'validator': lambda: SchemaValidator({'type': 'int'}), 'ser': lambda: SchemaSerializer({'type': 'int'}),
    'notimpl': lambda: NotImplemented, 'ell': lambda: ..., 'slice': lambda: slice(1), 'fset': lambda: frozenset({1, 'a'}), 'bigset': lambda: set(range(300)), 'module': lambda: json, 'frozen': lambda: frozenset([()]),
    'unhashable': lambda: ([], {}), 'setofnone': lambda: {None}, 'keys': lambda: {'a': 1}.keys(), 'values': lambda: {'a': 1}.values(), 'ditems': lambda: {'a': 1}.items(), 'intkeys': lambda: {1: 1, None: 2, (1,): 3, b'x': 4, 1.5: 5},
    'surkeys': lambda: {'\ud800': 1, 'a': 2}, 'odkeys': lambda: {OddEq(): 1}, 'eqset': lambda: {OddEq()}, 'path': lambda: __import__('pathlib').Path('/x'), 'ip': lambda: __import__('ipaddress').ip_address('127.0.0.1'),
    'pattern': lambda: __import__('re').compile('a'), 'nt': lambda: collections.namedtuple('NT', 'a b')(1, 2), 'tzinfo': lambda: pc.TzInfo(3600), 'omit': pc.PydanticOmit, 'usedef': pc.PydanticUseDefault,
    'custom': lambda: pc.PydanticCustomError('a', '{a} {b}', {'a': '\ud800', 'b': OddRepr()}), 'known': lambda: pc.PydanticKnownError('greater_than', {'gt': 5}),
    'datesub': lambda: type('D', (datetime.date,), {'isoformat': boom, '__str__': boom})(2020, 1, 1), 'baddc': lambda: __import__('dataclasses').make_dataclass('Q', ['a'])(OddRepr()),
}


def touch(v, depth=0):
    """Look at a result in the ways a caller would."""
    if type(v).__name__ == 'ValidatorIterator':
        repr(v)
        for _ in range(6):
            try:
                touch(next(v), depth + 1)
            except StopIteration:
                break
            except ValidationError as e:
                look(e)
    elif isinstance(v, (pc.Url, pc.MultiHostUrl)):
        str(v), repr(v), hash(v), v == v, v < v, copy.deepcopy(v), bool(v), v.unicode_string(), v.path, v.query, v.fragment, v.query_params(), v.scheme
        if isinstance(v, pc.Url):
            v.username, v.password, v.host, v.port, v.unicode_host()
            pickle.loads(pickle.dumps(v))
        else:
            v.hosts()
    elif isinstance(v, datetime.datetime) and type(v.tzinfo).__name__ == 'TzInfo':
        z = v.tzinfo
        str(z), repr(z), hash(z), z == z, z < z if False else 0, z.utcoffset(v), z.tzname(v), z.dst(v), copy.deepcopy(z), pickle.loads(pickle.dumps(z)), v.isoformat(), z.fromutc(v)
    elif isinstance(v, (list, tuple)) and depth < 4 and type(v) in (list, tuple):
        for x in v[:6]:
            touch(x, depth + 1)


def look(e):
    """Every view of a validation error."""
    for f in (lambda: e.errors(), lambda: e.errors(include_url=False, include_context=False, include_input=False), lambda: e.error_count(), lambda: e.json(), lambda: e.json(indent=2, include_input=False),
              lambda: str(e), lambda: repr(e), lambda: e.title, lambda: e.__reduce__(), lambda: pickle.loads(pickle.dumps(e)), lambda: e.__cause__):
        attempt(f)


class Panic(Exception):
    pass


def attempt(f):
    try:
        return f()
    except Exception:
        return None
    except BaseException as e:
        if type(e).__name__ == 'PanicException':
            raise Panic(str(e)[:300])
        return None


FUNCS = {
    'to_json': lambda *a, **k: pc.to_json(*a, **k), 'to_jsonable': lambda *a, **k: pc.to_jsonable_python(*a, **k), 'from_json': lambda *a, **k: pc.from_json(*a, **k),
    'from_exception_data': lambda *a, **k: look(ValidationError.from_exception_data(*a, **k)), 'Url': lambda *a: touch(pc.Url(*a)), 'MultiHostUrl': lambda *a: touch(pc.MultiHostUrl(*a)),
    'Url.build': lambda **k: touch(pc.Url.build(**k)), 'MultiHostUrl.build': lambda **k: touch(pc.MultiHostUrl.build(**k)),
    'custom': lambda *a: (lambda e: (e.message(), e.type, e.context, e.message_template, str(e), repr(e)))(pc.PydanticCustomError(*a)),
    'known': lambda *a: (lambda e: (e.message(), e.type, e.context, e.message_template, str(e), repr(e)))(pc.PydanticKnownError(*a)),
    'TzInfo': lambda *a: (lambda z: (str(z), repr(z), hash(z), z.utcoffset(None), pickle.loads(pickle.dumps(z)), copy.deepcopy(z), z == z))(pc.TzInfo(*a)),
    'ArgsKwargs': lambda *a: (lambda z: (str(z), repr(z), z == z, z.args, z.kwargs))(pc.ArgsKwargs(*a)), 'Some': lambda *a: (lambda z: (str(z), repr(z)))(pc.Some(*a)),
    'serr': lambda *a: (lambda z: (str(z), repr(z), z.__reduce__()))(pc.PydanticSerializationError(*a)), 'suv': lambda *a: (lambda z: (str(z), repr(z)))(pc.PydanticSerializationUnexpectedValue(*a)),
    'undefined': lambda: (repr(pc.PydanticUndefined), copy.deepcopy(pc.PydanticUndefined), pickle.loads(pickle.dumps(pc.PydanticUndefined)), pc.PydanticUndefinedType.new() if hasattr(pc.PydanticUndefinedType, 'new') else None),
    'list_errors': lambda: __import__('pydantic_core._pydantic_core').list_all_errors() if hasattr(pc, 'list_all_errors') else None,
}


def run(d):
    """d: a Driver over a case with total set."""
    case, w = d.case, d.w
    out = {'id': case['id'], 'build': 'ok', 'outs': []}

    def junk(v):
        if isinstance(v, dict) and v.get('t') == 'odd':
            return ODD[v['n']]()
        return w.dec(v)

    def mutate(py, ms):
        for m in ms:
            try:
                at = py
                for k in m['path'][:-1]:
                    at = list(at.values())[k % len(at)] if isinstance(at, dict) and isinstance(k, int) else at[k]
                k = m['path'][-1] if m['path'] else None
                if isinstance(at, dict) and isinstance(k, int):
                    k = list(at)[k % len(at)]
                if m['how'] == 'del':
                    del at[k]
                elif m['how'] == 'key':
                    at[junk(m['k'])] = junk(m['v'])
                elif m['how'] == 'wrap':
                    at[k] = {'type': m['type'], 'schema': at[k]}
                elif m['how'] == 'raw':
                    at[k] = json.loads(json.dumps(m['v']))
                else:
                    at[k] = junk(m['v'])
            except (KeyError, IndexError, TypeError, ZeroDivisionError, AttributeError, UserError):
                pass
        return py

    def end(thunk):
        try:
            thunk()
            return {'k': 'ok'}
        except Panic as e:
            return {'k': 'panic', 'm': str(e)}
        except ValidationError as e:
            try:
                look(e)
            except Panic as q:
                return {'k': 'panic', 'm': str(q)}
            return {'k': 'errs'}
        except BaseException as e:
            r = d.exc(e)
            if r['k'] == 'exc':
                r['user'] = r.pop('m') != ''
            return r

    things = []
    for i, (s, cfg) in enumerate(zip(case['schemas'], case['cfg'])):
        c = {k: v for k, v in cfg.items() if k != 'has'}
        box = {}

        def make():
            raw = s.get('raw')
            py = mutate(raw if raw is not None else d.schema(s['v']), s.get('mut', ()))
            box['py'] = py
            cfg = mutate({'c': dict(c)}, s.get('cfgmut', ()))['c']
            box['cfg'] = cfg
        try:
            make()
        except BaseException as e:
            raise RuntimeError('bad case: %r' % (e,))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for cls in (SchemaValidator, SchemaSerializer):
                try:
                    v = cls(box['py'], box['cfg'] or None)
                    attempt(lambda: (repr(v), v.__reduce__(), getattr(v, 'title', None), str(v)))
                    things.append(v)
                except Panic as e:
                    out['build'] = 'panic'
                    out['buildm'] = str(e)[:400]
                except BaseException as e:
                    name = type(e).__name__
                    attempt(lambda: (str(e), repr(e), e.errors() if name == 'SchemaError' else 0, e.error_count() if name == 'SchemaError' else 0))
                    if out['build'] in ('ok', 'SchemaError') or name == 'PanicException':
                        out['build'] = 'user' if isinstance(e, UserError) or str(e).startswith('boom') else name
                        out['buildm'] = str(e)[:400] if name != 'UserError' else ''
                    things.append(None)
    for op in case['ops']:
        w.log.clear()
        r = {'k': 'ok'}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = op['op']
            v = things[2 * (op['s'] - 1)] if 's' in op and len(things) > 1 else None
            z = things[2 * (op['s'] - 1) + 1] if 's' in op and len(things) > 1 else None
            x = junk(op['x']) if 'x' in op else None
            kw = {k: junk(q) for k, q in op.get('kw', {}).items()}
            if o == 'call':
                f = FUNCS[op['f']]
                a = [junk(q) for q in op.get('a', ())]
                r = end(lambda: f(*a, **kw))
            elif o in ('to_python', 'to_json'):
                if z is not None:
                    r = end(lambda: getattr(z, o)(x, **kw))
            elif v is not None:
                if o == 'validate_python':
                    r = end(lambda: touch(v.validate_python(x, **kw)))
                elif o == 'isinstance':
                    r = end(lambda: v.isinstance_python(x, **kw))
                elif o == 'validate_json':
                    t = op['text'] if 'text' in op else x
                    t = t.encode('utf-8', 'surrogatepass') if op.get('form') == 'bytes' and isinstance(t, str) else t
                    r = end(lambda: touch(v.validate_json(t, **kw)))
                elif o == 'validate_strings':
                    r = end(lambda: touch(v.validate_strings(x, **kw)))
                elif o == 'default':
                    r = end(lambda: touch(v.get_default_value(**kw)))
                elif o == 'assign':
                    f = junk(op['field'])
                    val = junk(op['v'])
                    r = end(lambda: touch(v.validate_assignment(x, f, val, **kw)))
                elif o == 'both':  # validate, then serialize the result
                    def both():
                        q = v.validate_python(x, **kw)
                        if z is not None:
                            for g in (lambda: z.to_python(q), lambda: z.to_json(q), lambda: z.to_python(q, mode='json')):
                                attempt(g)
                    r = end(both)
        r['log'] = []
        r['mut'] = []
        out['outs'].append(r)
    return out
