"""Constructors for tagged values and case records."""
from __future__ import annotations
import itertools
import math


def int_enc(i):
    if -10**9 < i < 10**9:
        return {'t': 'int', 'i': int(i)}
    return {'t': 'big', 'neg': i < 0, 'd': str(abs(int(i)))}


def float_enc(f):
    if math.isnan(f):
        return {'t': 'fsp', 'k': 'nan'}
    if math.isinf(f):
        return {'t': 'fsp', 'k': 'inf' if f > 0 else '-inf'}
    if f == 0 and math.copysign(1, f) < 0:
        return {'t': 'fsp', 'k': '-0.0'}
    if abs(f) < 10**8 and f * 4 == int(f * 4):
        return {'t': 'float', 'q': int(f * 4)}
    if f == int(f):
        return {'t': 'fbig', 'neg': f < 0, 'd': str(abs(int(f)))}
    a = abs(f)
    return {'t': 'fopq', 'neg': f < 0, 'd': str(int(a)), 'q': int((a - int(a)) * 4), 'r': float.__repr__(f)}


def I(n):
    return {'t': 'int', 'i': n} if -10**9 < n < 10**9 else {'t': 'big', 'neg': n < 0, 'd': str(abs(n))}


def S(s):
    return {'t': 'str', 's': s}


def B(b):
    return {'t': 'bool', 'b': b}


def F(x):
    return float_enc(float(x))


def D(s):
    from decimal import Decimal
    return {'t': 'dec', 's': str(Decimal(s))}


def L(*l):
    return {'t': 'list', 'l': list(l)}


def T(*l):
    return {'t': 'tuple', 'l': list(l)}


def FS(*l):
    return {'t': 'frozenset', 'l': list(l)}


def M(*kv):
    """dict from (key, value) pairs; string keys may be given bare"""
    return {'t': 'dict', 'd': [[S(k) if isinstance(k, str) else k, v] for k, v in kv]}


def R(n):
    return {'t': 'ref', 'r': n}


def BY(b):
    b = b if isinstance(b, bytes) else b.encode()
    try:
        return {'t': 'bytes', 'y': b.decode(), 'u': True}
    except UnicodeDecodeError:
        return {'t': 'bytes', 'y': b.hex(), 'u': False}


def BSUB(b):
    return dict(BY(b), t='bytessub')


def BA(b):
    return dict(BY(b), t='bytearray')


def E(c, n):
    return {'t': 'enum', 'c': c, 'n': n}


def INST(c, d=(), fs=None, x=None):
    if c == 'DS':
        d = sorted(d, key=lambda e: e[0])
    return {'t': 'inst', 'c': c, 'd': [[S(k), v] for k, v in d], 'hf': fs is not None, 'fs': sorted(fs or []),
            'hx': x is not None, 'x': [[S(k), v] for k, v in (x or ())]}


def CLS(c):
    return {'t': 'cls', 'c': c}


def ITB(k, l, fail=-1):
    return {'t': 'itb', 'k': k, 'l': list(l), 'fail': fail}


def ARGS(l=(), d=None):
    return {'t': 'args', 'l': list(l), 'hk': d is not None, 'd': [[S(k), v] for k, v in (d or ())]}


N = {'t': 'none'}
UNDEF = {'t': 'undef'}
OBJ = {'t': 'obj', 'n': 'Opaque'}
JSONABLE = ('none', 'bool', 'int', 'big', 'float', 'fbig', 'fopq', 'fsp', 'str')


def jsonable(v):
    t = v['t']
    if t == 'list':
        return all(jsonable(x) for x in v['l'])
    if t == 'dict':
        return all(k['t'] == 'str' and jsonable(x) for k, x in v['d'])
    return t in JSONABLE


def has_surrogate(v):
    import json
    return '\\ud8' in json.dumps(v)


def case(schemas, ops, heap=(), cfg=None, **kw):
    if isinstance(schemas, dict):
        schemas = [schemas]
    out = []
    for s in schemas:
        out.append(s if 'v' in s else {'v': s})
    if cfg is None:
        cfg = [{} for _ in out]
    elif isinstance(cfg, dict):
        cfg = [cfg for _ in out]
    cfg = [dict(c, has=bool(c)) for c in cfg]
    return dict(heap=list(heap), schemas=out, cfg=cfg, ops=list(ops), **kw)


def val(x, mode='python', s=1, **kw):
    return dict(op='validate', s=s, mode=mode, x=x, **kw)
