"""Cases for scalar schemas: P01 (conversion table), P02 (constraints), P03 (strictness)."""
from __future__ import annotations
import itertools
import random
from values import *

PAD = ['', ' ', '\t', '\n', '\u00a0', '  ']
NUMSTR = ['0', '1', '-1', '+1', '-0', '00', '007', '1_000', '_1', '1_', '1__0', '1.0', '1.', '1.00', '1.5', '.5', '-.5', '0_1',
          '-0012.00', '0-1', '-+1', '+-1', '--1', '++1', '1e2', '1E2', '1e-2', '1.5e1', '0x1', 'inf', '-inf', 'Infinity',
          'nan', 'NaN', '-nan', '1e400', '1e-400', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
          '-9223372036854775809', '100000000000000000000', '0.1', '0.30000000000000004', '1_0.0', '1_0.5', '1,0', '\u0661',
          '1 0', '0.0', '-0.0', '00.5', '1e5', '123456789', '1234567890', '-0_0', '+0', '+ 1', '- 1', '1.0_0', '1._0',
          '000000000000000000000000000001', '0000_1', '00_', '0_', '2.50', '-2.5', '-1.0', '+1.0', '1.0.0', '10000000000000000']
BOOLSTR = ['true', 'True', 'TRUE', 'tRuE', 'false', 'False', 't', 'T', 'f', 'F', 'y', 'Y', 'n', 'N', 'yes', 'YES', 'no', 'No',
           'on', 'ON', 'off', 'OFF', 'oN', 'tr', 'yess', 'offf', 'o', 'none', 'null', '2', '10', '01']
TEXT = ['', 'a', 'A', 'aB', 'abc', ' abc ', 'h\u00e9', '\u00c9', '\u4e2d\u6587', 'x', 'yes', '\u20ac', 'a\nb', '\u00df', 'Z']
BIGS = [10**9, -10**9, 2**31, 2**53, 2**53 + 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**20, -10**20, 10**23,
        2**70, 2**100, 10**30, 1234567890123]
FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, 0.25, -2.75, 2.0, 0.1, 3.14, 1e8, 1e10, 9007199254740992.0, 1e15, 1e18,
          9.223372036854776e18, -9.223372036854776e18, 1e19, 1e22, 123456789.0, 100.0, float('inf'), float('-inf'), float('nan')]
DECS = ['0', '1', '1.0', '1.00', '1.5', '-3', '1E+2', '1E-2', '100000000000000000000', 'NaN', 'Infinity', '-Infinity', '-0', '2.25']
ENUMV = [('EPlain', 'A'), ('EPlain', 'B'), ('EPlain', 'C'), ('EInts', 'Q'), ('EStr', 'X'), ('EStr', 'Y'), ('EStr', 'N'),
         ('EInt', 'ZERO'), ('EInt', 'ONE'), ('EInt', 'TWO'), ('EFall', 'A'), ('EFall', 'B')]


def scalars():
    v = [N, B(True), B(False)]
    v += [I(n) for n in (0, 1, -1, 2, 7, 10, -10, 255, 999999999, *BIGS)]
    v += [F(x) for x in FLOATS]
    v += [S(s) for s in NUMSTR + BOOLSTR + TEXT]
    v += [S(p + s + q) for s in ('1', '-5', '1.0', 'true', '1.5') for p in PAD for q in PAD if p or q]
    return v


def py_only():
    v = [{'t': 'intsub', 'i': n} for n in (0, 1, 5, -3)]
    v += [{'t': 'floatsub', 'q': n} for n in (0, 4, 6)]
    v += [{'t': 'strsub', 's': s} for s in ('', '1', 'true', 'abc', '1.5', ' 7 ')]
    v += [BY(b) for b in ('', '1', ' 12 ', 'true', 'abc', '1.5', 'h\u00e9', b'\xff\xfe', 'TRUE', '9223372036854775808', '1_0')]
    v += [BSUB('1'), BSUB('abc'), BA('1'), BA('abc'), BA(b'\xff'), BA('1.5')]
    v += [D(s) for s in DECS]
    v += [E(*e) for e in ENUMV]
    v += [OBJ, CLS('int'), L(), L(I(1)), T(), T(I(1)), M(), M(('a', I(1))), FS(), FS(I(1))]
    return v


TYPES = ['bool', 'int', 'float', 'str', 'bytes', 'none', 'any']


def inputs(mode):
    if mode == 'python':
        return scalars() + py_only()
    if mode == 'json':
        return [v for v in scalars()] + [L(), L(I(1)), M(), M(('a', I(1)))]
    return [v for v in scalars() if v['t'] == 'str'] + [M(), M(('a', S('1'))), N, I(3), {'t': 'strsub', 's': '1'}, {'t': 'strsub', 's': 'true'}]


def grammar(alpha, n):
    for k in range(1, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def rand_numstr(rng):
    s = ''.join(rng.choice('0011259_.-+e ') for _ in range(rng.randint(1, 8)))
    if rng.random() < .3:
        s = rng.choice(['', '-', '+', ' ']) + '0' * rng.randint(0, 3) + str(rng.choice(BIGS + [5, 12])) + rng.choice(['', '.0', '.', '.5', ' ', '_'])
    if rng.random() < .05:
        s = rng.choice(['', '-']) + '1' * rng.choice([4299, 4300, 4301, 18, 19, 20])
    return s


def modes_of(t):
    return ('python', 'json', 'strings')


def chunk(schema, ops, cfg=None, n=60, **kw):
    return [case(schema, ops[i:i + n], cfg=cfg, **kw) for i in range(0, len(ops), n)]


def clean(v, mode):
    """Inputs of the given mode must be expressible in it (and Rust's float Display is not modelled for opaque reprs)."""
    if mode == 'json':
        return jsonable(v)
    return True


def p01(rng, tier):
    out = []
    for t in TYPES:
        for mode in modes_of(t):
            ops = [val(x, mode, strict=st) for x in inputs(mode) for st in ('none', 'true', 'false')]
            out += chunk({'type': t}, ops)
        # as a JSON object key
        ks = [S(s) for s in NUMSTR + BOOLSTR + TEXT]
    for t in ('int', 'float', 'bool', 'str'):
        ops = []
        for s in grammar('01-+_. ', 4 if tier == 'quick' else 5):
            ops.append(val(S(s)))
        if tier == 'thorough':
            ops += [val(S(s), 'strings') for s in grammar('05-_.e', 5)]
        if t in ('bool', 'str') and tier == 'quick':
            ops = ops[::7]
        out += chunk({'type': t}, ops, n=120)
        ops = []
        for _ in range(400 if tier == 'quick' else 12000):
            mode = rng.choice(['python', 'json', 'strings'])
            s = rand_numstr(rng)
            x = S(s)
            if mode == 'python' and rng.random() < .3:
                x = rng.choice([BY(s), {'t': 'strsub', 's': s}, BA(s)])
            ops.append(val(x, mode, strict=rng.choice(['none', 'none', 'true', 'false'])))
        out += chunk({'type': t}, ops)
    # number to string coercion
    pyin = [x for x in inputs('python') if not (x['t'] == 'fbig' and len(x['d'].rstrip('0')) > 15)]
    sch = {'type': 'str', 'coerce_numbers_to_str': True}
    out += chunk(sch, [val(x, strict=st) for x in pyin for st in ('none', 'true')])
    out += chunk(sch, [val(x, 'json', strict=st) for x in inputs('json') for st in ('none', 'true') if x['t'] != 'fbig' and x['t'] != 'fopq'])
    out += chunk({'type': 'str'}, [val(x) for x in pyin], cfg={'coerce_numbers_to_str': True})
    # the same values reached through bytes and bytearray JSON text
    for t in TYPES:
        out += chunk({'type': t}, [val(x, 'json', form=f) for x in inputs('json') for f in ('bytes', 'bytearray')][::2])
    return out


def pat(src):
    return dict(src)


def atom(cs, lo=1, hi=1, any=False, neg=False):
    return {'cs': list(cs), 'lo': lo, 'hi': hi, 'any': any, 'not': neg}


def pattern(atoms, b=False, e=False, comp=False):
    from driver_pattern import pattern_src
    p = {'b': b, 'e': e, 'a': atoms, 'comp': comp, 'nl': False}
    p['src'] = pattern_src(p)
    return p


def rand_pattern(rng):
    n = rng.randint(1, 3)
    atoms = []
    for _ in range(n):
        cs = rng.choice(['a', 'ab', 'abc', '0123456789', 'x', 'A', ' ', '.', 'A-'])
        lo, hi = rng.choice([(1, 1), (0, 1), (0, 99), (1, 99), (2, 2), (1, 3)])
        atoms.append(atom(cs, lo, hi, any=rng.random() < .15, neg=rng.random() < .2))
    return pattern(atoms, rng.random() < .5, rng.random() < .5, rng.random() < .3)


def p02(rng, tier):
    out = []
    k = 1 if tier == 'quick' else 8
    bounds = [I(n) for n in (-3, 0, 1, 5, 10)] + [I(n) for n in (2**63 - 1, 2**63, -2**63 - 1, 10**20)]
    ints = [I(n) for n in (-10, -4, -3, -2, 0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 20)] + [I(n) for n in BIGS] + \
        [S('5'), S('10.0'), F(5.0), B(True), S('x'), F(2.5), S('9223372036854775808')]
    fbounds = [F(x) for x in (-1.5, 0.0, 1.0, 2.25, 10.0, 1e10, float('inf'))]
    floats = [F(x) for x in (-2.0, -1.5, -1.25, -0.0, 0.0, 0.25, 1.0, 2.0, 2.25, 2.5, 9.75, 10.0, 10.25, 1e10, 1e15,
                             float('inf'), float('-inf'), float('nan'))] + [I(1), I(10), S('2.25'), B(True), S('inf'), I(10**20)]
    # one bound at a time, exhaustively; then random combinations
    for key in ('le', 'lt', 'ge', 'gt'):
        for b in bounds:
            out.append(case({'type': 'int', key: b}, [val(x) for x in ints + [b]]))
        for b in fbounds:
            out.append(case({'type': 'float', key: b}, [val(x) for x in floats + [b]]))
    for m in [I(1), I(2), I(3), I(-3), I(5), I(10**20), I(2**63), I(2**64), I(2**63 - 1)]:
        num = int(m['d']) if m['t'] == 'big' else 0
        xs = ints if m['t'] == 'int' else [x for x in ints + [m] if x['t'] != 'big' or abs(int(x['d'])) <= num]
        out.append(case({'type': 'int', 'multiple_of': m}, [val(x) for x in xs]))
    for m in (0.25, 0.5, 1.0, 2.5, 3.0):
        out.append(case({'type': 'float', 'multiple_of': F(m)}, [val(x) for x in floats if x['t'] in ('float', 'bool') or x['t'] == 'fsp' and x['k'] != '-0.0']))
    for _ in range(150 * k):
        s = {'type': 'int'}
        for key in ('le', 'lt', 'ge', 'gt'):
            if rng.random() < .4:
                s[key] = rng.choice(bounds)
        if rng.random() < .3:
            s['multiple_of'] = I(rng.choice([2, 3, 4, 5]))
        if rng.random() < .2:
            s['strict'] = rng.random() < .5
        out.append(case(s, [val(rng.choice(ints), rng.choice(['python', 'python', 'json']), strict=rng.choice(['none', 'true', 'false'])) for _ in range(12)]))
        s = {'type': 'float'}
        for key in ('le', 'lt', 'ge', 'gt'):
            if rng.random() < .35:
                s[key] = rng.choice(fbounds)
        if rng.random() < .3:
            s['allow_inf_nan'] = rng.random() < .5
        cfg = {'allow_inf_nan': rng.random() < .5} if rng.random() < .3 else None
        out.append(case(s, [val(x, rng.choice(['python', 'python', 'json'])) for x in rng.sample(floats, 10)], cfg=cfg))
    texts = [S(t) for t in ['', 'a', 'b', 'ab', 'aab', 'abc', 'ABC', ' a', 'a ', ' ab c ', 'xa', 'x1', '12', '123', '1234', 'a.b',
                            'a-b', 'h\u00e9', '\u00c9a', '\u4e2d\u6587', 'aaa', 'aaaa', 'a\n', '\u00a0ab\u00a0', 'A1', '\u00df']] + \
        [BY('abc'), BY('h\u00e9'), BY(b'\xff'), I(12), {'t': 'strsub', 's': 'abc'}, E('EStr', 'Y'), BA('ab')]
    for _ in range(200 * k):
        s = {'type': 'str'}
        cfg = {}
        for key in ('min_length', 'max_length'):
            if rng.random() < .4:
                s[key] = rng.randint(0, 4)
            if rng.random() < .2:
                cfg['str_' + key] = rng.randint(0, 4)
        for key in ('strip_whitespace', 'to_lower', 'to_upper'):
            if rng.random() < .25:
                s[key] = rng.random() < .7
            if rng.random() < .15:
                cfg['str_' + key] = rng.random() < .7
        if rng.random() < .5:
            s['pattern'] = rand_pattern(rng)
            if rng.random() < .3:
                s['regex_engine'] = 'python-re'
            elif rng.random() < .2:
                cfg['regex_engine'] = 'python-re'
        out.append(case(s, [val(x, rng.choice(['python', 'python', 'json', 'strings']) if x['t'] == 'str' else 'python')
                            for x in rng.sample(texts, 14)], cfg=cfg or None))
        b = {'type': 'bytes'}
        for key in ('min_length', 'max_length'):
            if rng.random() < .6:
                b[key] = rng.randint(0, 5)
        if rng.random() < .3:
            out.append(case(b, [val(x, rng.choice(['python', 'python', 'json', 'strings']) if x['t'] == 'str' else 'python') for x in rng.sample(texts, 14)]))
    return out


CONS = {'bool': [{}], 'int': [{}, {'ge': I(-10**6)}], 'float': [{}, {'gt': F(-1e6)}, {'allow_inf_nan': False}],
        'str': [{}, {'max_length': 50}, {'coerce_numbers_to_str': True}, {'strip_whitespace': True}],
        'bytes': [{}, {'max_length': 50}]}


def p03_scalar(rng, tier):
    out = []
    for t in ('bool', 'int', 'float', 'str', 'bytes'):
        for sst in (None, True, False):
            for cst in (None, True, False):
              for con in CONS[t]:
                s = {'type': t, **con}
                if sst is not None:
                    s['strict'] = sst
                cfg = {'strict': cst} if cst is not None else None
                for mode in ('python', 'json', 'strings'):
                    xs = [x for x in inputs(mode) if not ('coerce_numbers_to_str' in con and x['t'] in ('fbig', 'fopq'))]
                    rng.shuffle(xs)
                    xs = xs[:12 if tier == 'quick' else 200]
                    out += chunk(s, [val(x, mode, strict=st) for x in xs for st in ('none', 'true', 'false')], cfg=cfg)
    return out
