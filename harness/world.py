"""Codec between the tagged values of the specification and Python objects, and the
translation of schema records into core schemas."""
from __future__ import annotations
import collections
import copy
import dataclasses
import datetime
import math
import pickle
import re
import sys
import threading
import types
from decimal import Decimal
from enum import Enum

import pydantic_core
from pydantic_core import PydanticUndefined

from pool import *
from values import float_enc, int_enc
from pool import CLASSES, DATACLASSES, ENUMS, MODELS, ModelBase

sys.set_int_max_str_digits(0)


def bytes_enc(b, t):
    try:
        return {'t': t, 'y': bytes(b).decode(), 'u': True}
    except UnicodeDecodeError:
        return {'t': t, 'y': bytes(b).hex(), 'u': False}


def bytes_dec(v):
    return v['y'].encode() if v['u'] else bytes.fromhex(v['y'])


SUBS = {'strsub': StrSub, 'intsub': IntSub, 'floatsub': FloatSub, 'bytessub': BytesSub}
IMMUTABLE_CELLS = {'tuple', 'frozenset'}


class SubDate(datetime.date):
    pass


class SubTime(datetime.time):
    pass


class SubDateTime(datetime.datetime):
    pass


class SubDelta(datetime.timedelta):
    pass


class UserError(Exception):
    """Raised by user functions: must reach the caller unchanged."""


class World:
    """The Python objects of one case."""

    def __init__(self, heap):
        self.heap = list(heap)
        self.objs = [None] * len(heap)
        self.ids = {}
        self.log = []
        self.threads = {}
        self.inplog = True
        self.keep = []
        self.consts = {}
        self.methods = {}
        for i, cell in enumerate(heap):
            if self.objs[i] is None:
                self.build(i)
        for i, o in enumerate(self.objs):
            self.ids[id(o)] = i + 1

    # ---------------------------------------------------------------- decoding
    def build(self, i):
        v = self.heap[i]
        t = v['t']
        if t == 'list':
            o = self.objs[i] = []
            o.extend(self.dec(x) for x in v['l'])
        elif t == 'dict':
            o = self.objs[i] = {}
            for k, x in v['d']:
                o[self.dec(k)] = self.dec(x)
        elif t == 'set':
            o = self.objs[i] = set()
            items = [(x, self.dec(x)) for x in v['l']]
            for _, x in items:
                o.add(x)
            v['l'] = self.reorder(items, o)
        elif t == 'map':
            pairs = []
            self.objs[i] = MyMapping(pairs)
            pairs.extend((self.dec(k), self.dec(x)) for k, x in v['d'])
        elif t == 'itb':
            items = []
            if v['k'] == 'iter':
                o = self.objs[i] = MyIter(items, v['fail'])
            elif v['k'] == 'once':
                o = self.objs[i] = Once(items, v['fail'])
            elif v['k'] == 'deque':
                o = self.objs[i] = collections.deque()
                o.extend(self.dec(x) for x in v['l'])
                return
            elif v['k'] == 'gen':
                o = self.objs[i] = self.gen(items, v['fail'])
            elif v['k'] == 'keys':
                d = {}
                o = self.objs[i] = d.keys()
                for x in v['l']:
                    d[self.dec(x)] = 0
                return
            elif v['k'] == 'values':
                d = {}
                o = self.objs[i] = d.values()
                for n, x in enumerate(v['l']):
                    d[n] = self.dec(x)
                return
            items.extend(self.dec(x) for x in v['l'])
        elif t == 'src':
            items = []
            self.objs[i] = Src(items, v['fail'], v['at'])
            items.extend(self.dec(x) for x in v['l'])
        elif t == 'inst':
            cls = CLASSES[v['c']]
            o = self.objs[i] = cls.__new__(cls)
            self.fill(o, v)
        elif t == 'tuple':
            self.objs[i] = tuple(self.dec(x) for x in v['l'])
        elif t == 'obj':
            self.objs[i] = Opaque(i)
        else:
            o = self.dec_new(v)
            self.objs[i] = o

    def gen(self, items, fail):
        def g():
            for i, v in enumerate(items):
                if i == fail:
                    raise RuntimeError('boom')
                yield v
            if fail == len(items):
                raise RuntimeError('boom')
        return g()

    def fill(self, o, v):
        d = {k['s']: self.dec(x) for k, x in v['d']}
        if isinstance(o, ModelBase):
            object.__setattr__(o, '__dict__', d)
            if v['hf']:
                object.__setattr__(o, '__pydantic_fields_set__', set(v['fs']))
            object.__setattr__(
                o, '__pydantic_extra__', {k['s']: self.dec(x) for k, x in v['x']} if v['hx'] else None)
            object.__setattr__(o, '__pydantic_private__', None)
        else:
            for k, x in d.items():
                object.__setattr__(o, k, x)

    def reorder(self, items, o):
        out = []
        for y in o:
            for x, d in items:
                if d is y or (type(d) is type(y) and d == y):
                    out.append(x)
                    break
            else:
                raise AssertionError('set member lost')
        return out

    def dec(self, v):
        if v['t'] == 'ref':
            i = v['r'] - 1
            if self.objs[i] is None:
                self.build(i)
            return self.objs[i]
        return self.dec_new(v)

    def dec_new(self, v):
        t = v['t']
        if t in ('none', 'bool', 'int', 'big', 'float', 'fbig', 'fopq', 'fsp', 'str'):
            return scalar(v)
        if t == 'strsub':
            return StrSub(v['s'])
        if t == 'intsub':
            return IntSub(v['i'])
        if t == 'floatsub':
            return FloatSub(v['q'] / 4)
        if t == 'bytes':
            return bytes_dec(v)
        if t == 'bytessub':
            return BytesSub(bytes_dec(v))
        if t == 'bytearray':
            return bytearray(bytes_dec(v))
        if t == 'dec':
            return Decimal(v['s'])
        if t == 'enum':
            return ENUMS[v['c']][v['n']]
        if t == 'cls':
            return CLASSES[v['c']]
        if t == 'undef':
            return PydanticUndefined
        if t == 'ell':
            return ...
        if t == 'fn':
            return self.const_fn(v)
        if t == 'obj':
            return Opaque(v.get('n', 0))
        if t == 'list':
            return [self.dec(x) for x in v['l']]
        if t == 'tuple':
            return tuple(self.dec(x) for x in v['l'])
        if t == 'frozenset':
            items = [(x, self.dec(x)) for x in v['l']]
            o = frozenset(x for _, x in items)
            v['l'] = self.reorder(items, o)
            return o
        if t == 'set':
            items = [(x, self.dec(x)) for x in v['l']]
            o = {x for _, x in items}
            v['l'] = self.reorder(items, o)
            return o
        if t == 'dict':
            return {self.dec(k): self.dec(x) for k, x in v['d']}
        if t == 'date':
            return (SubDate if v.get('sub') else datetime.date)(*v['p'])
        if t == 'time':
            return (SubTime if v.get('sub') else datetime.time)(*v['p'], tzinfo=tz_dec(v))
        if t == 'dt':
            return (SubDateTime if v.get('sub') else datetime.datetime)(*v['p'], tzinfo=tz_dec(v))
        if t == 'td':
            return (SubDelta if v.get('sub') else datetime.timedelta)(days=v['days'], seconds=v['s'], microseconds=v['us'])
        if t == 'args':
            return pydantic_core.ArgsKwargs(
                tuple(self.dec(x) for x in v['l']), {k['s']: self.dec(x) for k, x in v['d']} if v['hk'] else None)
        if t == 'inst':
            cls = CLASSES[v['c']]
            o = cls.__new__(cls)
            self.fill(o, v)
            return o
        raise KeyError(t)

    def const_fn(self, v):
        def f(*a, **k):
            return None
        f._label = v['f']
        return f

    # ---------------------------------------------------------------- encoding
    def enc(self, o, depth=0):
        i = self.ids.get(id(o))
        if i is not None:
            return {'t': 'ref', 'r': i}
        if type(o).__name__ == 'ValidatorIterator':
            # an object of its own from now on
            self.objs.append(o)
            self.heap.append({'t': 'vgen'})
            self.ids[id(o)] = len(self.objs)
            return {'t': 'ref', 'r': len(self.objs)}
        return self.enc_new(o, depth)

    def enc_new(self, o, depth=0):
        if depth > 60:
            return {'t': 'deep'}
        T = type(o)
        e = lambda x: self.enc(x, depth + 1)
        if o is None:
            return {'t': 'none'}
        if T is bool:
            return {'t': 'bool', 'b': o}
        if T is int:
            return int_enc(o)
        if T is float:
            return float_enc(o)
        if T is str:
            return {'t': 'str', 's': o} if o.isprintable() or not any(0xD800 <= ord(c) < 0xE000 for c in o) else {
                't': 'surr', 's': ascii(o)}
        if T is bytes:
            return bytes_enc(o, 'bytes')
        if T is bytearray:
            return bytes_enc(o, 'bytearray')
        if T is StrSub:
            return {'t': 'strsub', 's': str(o)}
        if T is IntSub:
            return {'t': 'intsub', 'i': int(o)}
        if T is FloatSub:
            return {'t': 'floatsub', 'q': int(o * 4)}
        if T is BytesSub:
            return bytes_enc(o, 'bytessub')
        if T is list:
            return {'t': 'list', 'l': [e(x) for x in o]}
        if T is tuple:
            return {'t': 'tuple', 'l': [e(x) for x in o]}
        if T is set:
            return {'t': 'set', 'l': [e(x) for x in o]}
        if T is frozenset:
            return {'t': 'frozenset', 'l': [e(x) for x in o]}
        if T is dict:
            return {'t': 'dict', 'd': [[e(k), e(x)] for k, x in o.items()]}
        if T is MyMapping:
            return {'t': 'map', 'd': [[e(k), e(x)] for k, x in o._p]}
        if T is Decimal:
            return {'t': 'dec', 's': str(o)}
        if o is PydanticUndefined:
            return {'t': 'undef'}
        if o is ...:
            return {'t': 'ell'}
        if isinstance(o, Enum):
            return {'t': 'enum', 'c': T.__name__, 'n': o.name}
        if isinstance(o, type):
            return {'t': 'cls', 'c': o.__name__}
        if isinstance(o, ModelBase):
            d = [[{'t': 'str', 's': k}, e(x)] for k, x in getattr(o, '__dict__', {}).items()]
            try:
                fs, hf = sorted(o.__pydantic_fields_set__), True
            except AttributeError:
                fs, hf = [], False
            try:
                x = o.__pydantic_extra__
            except AttributeError:
                x = None
            return {'t': 'inst', 'c': T.__name__, 'd': d, 'hf': hf, 'fs': fs, 'hx': x is not None,
                    'x': [[e(k), e(y)] for k, y in (x or {}).items()]}
        if T.__name__ in DATACLASSES or T in (AttrObj, AttrSub, AttrBad):
            if hasattr(o, '__dict__'):
                d = [[{'t': 'str', 's': k}, e(x)] for k, x in o.__dict__.items()]
            else:
                d = [[{'t': 'str', 's': k}, e(getattr(o, k))] for k in T.__slots__ if hasattr(o, k)]
            return {'t': 'inst', 'c': T.__name__, 'd': d, 'hf': False, 'fs': [], 'hx': False, 'x': []}
        if isinstance(o, pydantic_core.ArgsKwargs):
            return {'t': 'args', 'l': [e(x) for x in o.args], 'hk': o.kwargs is not None,
                    'd': [[e(k), e(x)] for k, x in (o.kwargs or {}).items()]}
        sub = {'sub': True} if T in (SubDate, SubTime, SubDateTime, SubDelta) else {}
        if T in (datetime.datetime, SubDateTime):
            return {'t': 'dt', 'p': [o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond], **tz_enc(o), **sub}
        if T in (datetime.date, SubDate):
            return {'t': 'date', 'p': [o.year, o.month, o.day], **sub}
        if T in (datetime.time, SubTime):
            return {'t': 'time', 'p': [o.hour, o.minute, o.second, o.microsecond], **tz_enc(o), **sub}
        if T in (datetime.timedelta, SubDelta):
            return {'t': 'td', 'days': o.days, 's': o.seconds, 'us': o.microseconds, **sub}
        if isinstance(o, BaseException):
            return {'t': 'err', 'c': T.__name__, 's': str(o)}
        if T.__name__ == 'ValidatorIterator':
            return {'t': 'vgen', 'idx': o.index}
        if T is Src:
            return {'t': 'src', 'at': o._at}
        if T is MyIter:
            return {'t': 'itb', 'k': 'iter', 'l': [e(x) for x in o.items], 'fail': o.fail}
        if T is collections.deque:
            return {'t': 'itb', 'k': 'deque', 'l': [e(x) for x in o], 'fail': -1}
        if callable(o) and hasattr(o, '_label'):
            return {'t': 'fn', 'f': o._label}
        return {'t': 'obj', 'n': T.__name__}

    def scribble(self, o, seen=None):
        """Change everything a result is made of, heap cells excepted: nothing else may notice."""
        seen = set() if seen is None else seen
        if id(o) in self.ids or id(o) in seen:
            return
        seen.add(id(o))
        self.keep.append(o)
        T = type(o)
        if T in (list, tuple, set, frozenset):
            for x in list(o):
                self.scribble(x, seen)
            if T is list:
                o.append('scribble')
            elif T is set:
                o.add('scribble')
        elif T is dict:
            for x in list(o.values()):
                self.scribble(x, seen)
            o['scribble'] = 1
        elif isinstance(o, ModelBase):
            for x in (o.__dict__, getattr(o, '__pydantic_extra__', None), getattr(o, '__pydantic_fields_set__', None)):
                self.scribble(x, seen)
        elif T.__name__ in DATACLASSES and hasattr(o, '__dict__'):
            self.scribble(o.__dict__, seen)
        elif isinstance(o, pydantic_core.ArgsKwargs):
            self.scribble(o.args, seen)
            self.scribble(o.kwargs, seen)

    def state(self):
        """Current content of every heap cell (one-shot iterators excepted)."""
        out = []
        for i, o in enumerate(self.objs):
            cell = self.heap[i]
            if cell['t'] in ('itb', 'obj', 'tuple') or cell['t'] == 'frozenset':
                out.append(cell)
            else:
                out.append(self.enc_new(o))
        return out

    def note(self, f, args, info=None):
        """A user function was entered."""
        ent = {'f': f, 'a': [self.enc(a) for a in args]}
        ent['i'] = info if info is not None else {'n': 0}
        self.entry(ent)

    def entry(self, ent):
        t = self.threads.get(threading.get_ident())
        if t is None:
            self.log.append(ent)
        else:
            t.log.append(ent)
            t.point()


def tz_enc(o):
    u = o.utcoffset()
    if o.tzinfo is None:
        return {'tz': False, 'off': 0}
    r = {'tz': True, 'off': int(u.total_seconds()) if u is not None else 0}
    if isinstance(o.tzinfo, pydantic_core.TzInfo):
        # what every zone of the library has to say about itself
        z = o.tzinfo
        if not (o.tzname() == str(z) and repr(z) == f'TzInfo({z})' and copy.deepcopy(z) == z and pickle.loads(pickle.dumps(z)) == z
                and hash(copy.deepcopy(z)) == hash(z) and o.dst() is None):
            return {**r, 'nm': f'inconsistent zone {z!r}'}
        r['nm'] = str(z)
    return r


def tz_dec(v):
    if not v['tz']:
        return None
    return datetime.timezone(datetime.timedelta(seconds=v['off']))
