"""Fixed pool of classes that cases mention by name."""
from __future__ import annotations
import dataclasses
from collections.abc import Mapping
from enum import Enum
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = json.load(open(os.path.join(HERE, '..', 'spec', 'data.json')))


class Hooks:
    """Set by the driver: user code calls back into the log through it."""

    world = None


class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class BytesSub(bytes):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class Opaque:
    """An object nothing knows about."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f'Opaque({self.label})'


class AttrObj:
    """A plain object with attributes."""


class AttrSub(AttrObj):
    pass


class AttrBad(AttrObj):
    """an attribute of it cannot be read"""

    @property
    def b(self):
        raise ValueError('bad property')

    @b.setter
    def b(self, v):
        pass


class MyMapping(Mapping):
    def __init__(self, pairs):
        self._p = pairs

    def __getitem__(self, k):
        for a, b in self._p:
            if a == k:
                return b
        raise KeyError(k)

    def __iter__(self):
        return iter([a for a, _ in self._p])

    def __len__(self):
        return len(self._p)


class MyIter:
    """A re-iterable without a length which may fail at an index."""

    def __init__(self, items, fail=-1):
        self.items, self.fail = items, fail

    def __iter__(self):
        for i, v in enumerate(self.items):
            if i == self.fail:
                raise RuntimeError('boom')
            yield v
        if self.fail == len(self.items):
            raise RuntimeError('boom')


class Once(MyIter):
    """A re-iterable which can be iterated over only once."""

    opened = False

    def __iter__(self):
        if self.opened:
            raise RuntimeError('opened twice')
        self.opened = True
        return super().__iter__()


class Src:
    """A one-shot iterator that counts what is asked of it; one pull may fail."""

    def __init__(self, items, fail=-1, at=0):
        self._items, self._fail, self._at = items, fail, at

    def __iter__(self):
        return self

    def __next__(self):
        at = self._at
        self._at += 1
        if at == self._fail:
            raise RuntimeError('boom')
        n = at - (1 if 0 <= self._fail < at else 0)
        if n < len(self._items):
            return self._items[n]
        raise StopIteration


def scalar(v):
    t = v['t']
    if t == 'none':
        return None
    if t == 'bool':
        return v['b']
    if t == 'int':
        return v['i']
    if t == 'big':
        return int(v['d']) * (-1 if v['neg'] else 1)
    if t == 'float':
        return v['q'] / 4
    if t == 'fbig':
        return float(int(v['d'])) * (-1 if v['neg'] else 1)
    if t == 'fopq':
        return float(v['r'])
    if t == 'fsp':
        return float(v['k'])
    if t == 'str':
        return v['s']
    raise KeyError(t)


ENUMS = {}
for _e in DATA['enums']:
    _mem = {m['n']: scalar(m['v']) for m in _e['mem']}
    if _e['base'] == 'none':
        if _e['c'] == 'EFall':
            class EFall(Enum):
                A = 'a'
                B = 5

                @classmethod
                def _missing_(cls, value):
                    if Hooks.world is not None:
                        Hooks.world.note('_missing_', [value])
                    if value == 'fall':
                        return cls.A
                    if value == 'badfall':
                        return 'not a member'
                    if value == 'raisefall':
                        raise RuntimeError('missing failed')
                    return None
            ENUMS['EFall'] = EFall
        else:
            ENUMS[_e['c']] = Enum(_e['c'], _mem)
    else:
        ENUMS[_e['c']] = Enum(_e['c'], _mem, type={'str': str, 'int': int, 'float': float}[_e['base']])
    ENUMS[_e['c']].__module__ = 'pool'


class ModelBase:
    __slots__ = '__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__'

    def hook(self, ctx):
        if Hooks.world is not None:
            Hooks.world.note('post_init', [ctx])

    def hook_err(self, ctx):
        self.hook(ctx)
        raise ValueError('bad post_init')


class MA(ModelBase):
    pass


class MA1(MA):
    pass


class MB(ModelBase):
    pass


class MC(ModelBase):
    pass


class MD(ModelBase):
    pass


class ME(ModelBase):
    pass


class Computed:
    __slots__ = ()

    @property
    def cp_a(self):
        return self.a

    @property
    def cp_list(self):
        return [1, 'x']

    @property
    def cp_none(self):
        return None

    @property
    def cp_raise(self):
        raise ValueError('bad property')


class MCF(Computed, ModelBase):
    __slots__ = ()


MODELS = {c.__name__: c for c in (MA, MA1, MB, MC, MD, ME, MCF)}


def _dc(name, bases=(), slots=False):
    # plain classes marked as dataclasses; the fields come from the schema
    ns = {'__dataclass_fields__': {}, '__module__': 'pool'}
    if slots:
        ns['__slots__'] = ('a', 'b', 'c', 'd')
    return type(name, bases, ns)


@dataclasses.dataclass
class DA:
    a: int = 0
    b: int = 0
    c: int = 0


@dataclasses.dataclass
class DA1(DA):
    d: int = 0


@dataclasses.dataclass
class DB:
    a: int
    b: int = 5


@dataclasses.dataclass(slots=True)
class DS:
    a: int
    b: int
    c: int


@dataclasses.dataclass
class DP:
    """has a post-initialiser"""
    a: int = 0
    b: int = 0
    c: int = 0

    def __post_init__(self, *args):
        if Hooks.world is not None:
            Hooks.world.note('__post_init__', [args])


@dataclasses.dataclass
class DQ:
    """has a post-initialiser that objects"""
    a: int = 0
    b: int = 0
    c: int = 0

    def __post_init__(self, *args):
        if Hooks.world is not None:
            Hooks.world.note('__post_init__', [args])
        raise ValueError('bad __post_init__')


@dataclasses.dataclass
class DCF(Computed):
    a: int = 0
    b: int = 0
    c: int = 0


DATACLASSES = {c.__name__: c for c in (DCF, DA, DA1, DB, DS, DP, DQ)}

CLASSES = {
    'bool': bool, 'int': int, 'float': float, 'str': str, 'bytes': bytes, 'list': list, 'dict': dict, 'set': set,
    'tuple': tuple, 'frozenset': frozenset, 'object': object, 'NoneType': type(None), 'type': type,
    'StrSub': StrSub, 'IntSub': IntSub, 'FloatSub': FloatSub, 'BytesSub': BytesSub, 'Opaque': Opaque,
    'AttrObj': AttrObj, 'AttrSub': AttrSub, 'AttrBad': AttrBad, 'MyMapping': MyMapping, 'MyIter': MyIter,
    'ListSub': ListSub, 'DictSub': DictSub,
    **ENUMS, **MODELS, **DATACLASSES,
}
