"""Dates, times, datetimes and durations (P30)."""
from __future__ import annotations
import copy

from values import *

KINDS = ['date', 'time', 'datetime', 'timedelta']
TAG = {'date': 'date', 'time': 'time', 'datetime': 'dt', 'timedelta': 'td'}
YEARS = [1, 4, 100, 400, 999, 1000, 1600, 1652, 1653, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2100, 2400, 2603, 9996, 9998, 9999]


def ymd(r):
    y = r.choice(YEARS) if r.random() < .8 else r.choice([r.randint(1, 2020), r.randint(2100, 9999)])
    m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
    last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    return [y, m, r.choice([1, last, r.randint(1, last)])]


def clock(r):
    if r.random() < .25:
        return [0, 0, 0, 0]
    us = r.choice([0, 0, 1, 10, 500000, 999999, 250000, r.randrange(1000000)])
    return [r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]), r.choice([0, 59, r.randrange(60)]), us]


def zone(r):
    if r.random() < .45:
        return {'tz': False, 'off': 0}
    return {'tz': True, 'off': r.choice([0, 0, 60, -60, 3600, -3600, 19800, -34200, 86340, -86340, 7200, r.randint(-1439, 1439) * 60])}


def td(r):
    days = r.choice([0, 0, 0, 1, -1, 365, -366, r.randint(-800, 800), 999999999, -999999999, 104250])
    us = r.choice([0, 0, 1, 999999, 500000, r.randrange(1000000)])
    s = r.choice([0, 0, 1, 59, 60, 3599, 3600, 86399, r.randrange(86400)])
    return {'t': 'td', 'days': days, 's': s, 'us': us}


def value(r, kind, sub=.08):
    if kind == 'date':
        v = {'t': 'date', 'p': ymd(r)}
    elif kind == 'time':
        v = {'t': 'time', 'p': clock(r), **zone(r)}
    elif kind == 'datetime':
        v = {'t': 'dt', 'p': ymd(r) + clock(r), **zone(r)}
    else:
        v = td(r)
        if abs(v['days']) > 100000:
            sub = 0
    if r.random() < sub:
        v['sub'] = True
    return v


# ------------------------------------------------------------------------- texts
def show_date(r, p):
    return '%04d-%02d-%02d' % tuple(p)


def show_clock(r, p):
    h, m, s, us = p
    x = r.random()
    if x < .15:
        return '%02d:%02d' % (h, m)
    t = '%02d:%02d:%02d' % (h, m, s)
    if us or x < .3:
        f = ('%06d' % us)[:r.choice([6, 6, 6, 1, 2, 3, 4, 5])]
        if r.random() < .15:
            f += r.choice(['0', '1', '12', '999', '4444444444'])
        t += r.choice('...,') + f
    return t


def show_zone(r, z):
    if not z['tz']:
        return ''
    if z['off'] == 0 and r.random() < .6:
        return r.choice('Zz')
    o = abs(z['off']) // 60
    return (r.choice(['-', '-', '\u2212']) if z['off'] < 0 else '+') + r.choice(['%02d:%02d', '%02d%02d']) % (o // 60, o % 60)


def num(r, kind):
    n = r.choice([0, 1, -1, 86400, 86399, -86400, 3600, 20000000000, 20000000001, -20000000000, -20000000001, 253402300799, 253402300800, 253402300799999,
                  253402300800000, -62167219200, -62167219201, -62167219200000, -62167219200001, -62135596800, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 10**19, 10**30, 2**32, 2**32 - 1,
                  371085174374401, 86399999913600, 86399999913599, 86400000000000, -86399999913600, -86399999913601,
                  r.randint(-10**6, 10**10) , r.randint(-10**11, 10**12), r.randint(-10**13, 10**14), 86400 * r.randint(-700000, 2000000), 86400000 * r.randint(-700000, 2000000)])
    return n


def numtext(r, kind):
    s = str(num(r, kind))
    x = r.random()
    if x < .1:
        s = r.choice(['+', '0', '00', '-', ' ']) + s
    x = r.random()
    n = int(''.join(c for c in s if c.isdigit()))
    if x < .35 and n <= 2 * 10**13:  # (the date parser divides larger numbers twice)
        f = r.choice(['.0', '.5', '.25', '.75', '.', '.000']) if n > 10**7 else r.choice(['.0', '.5', '.123456', '.1234', '.9999991', '.0000001', '.999999', '.25', '.', '.1234567', '.000001'])
        s += f
    return s


def durtext(r):
    x = r.random()
    frac = lambda: r.choice(['', '', '', '.5', ',25', '.125', '.1', '.0001', '.', '.9999', '.50'])
    n = lambda: str(r.choice([0, 1, 2, 7, 12, 30, 60, 100, 365, 1000, 99999, r.randint(0, 99999)]))
    if x < .4:
        s = 'P'
        d = r.sample('YMWD', r.choice([0, 0, 1, 1, 2, 3]))
        t = r.sample('HMS', r.choice([0, 1, 1, 2, 3]))
        if r.random() < .8:
            d.sort(key='YMWD'.index), t.sort(key='HMS'.index)
        parts = [('D', u) for u in d] + [('T', u) for u in t]
        k = 0
        for i, (a, u) in enumerate(parts):
            if a == 'T' and not k:
                s += 'T'
                k = 1
            s += n() + (frac() if i == len(parts) - 1 or r.random() < .05 else '') + u
    elif x < .7:
        s = str(r.choice([0, 1, 2, 10, 400, 999999999, 1000000000, 4294967295, 4294967296, 104250])) + r.choice(['d', ' d', 'D', ' days', 'days', ' day', 'day', ' DAYS', 'DAY', ' dys', ' daxs', 'dAYS', ''])
        s += r.choice(['', '', ' ', ', ', ',', ' ']) + r.choice(['', '', '00:00', '24:00', '1:02', '12:34:56', '1:02:03', '23:59:59.999999', '0:00:01.5', '12:60', '100:00:00', ':05:06'])
    elif x < .95:
        s = r.choice(['00', '0', '1', '12', '24', '100', '2400000000', '2400000001', '23', '99999', '', '0000000001', '00000000001', '1x']) + ':' + r.choice(['00', '02', '59', '60', '5'])
        s += r.choice(['', ':00', ':59', ':60', ':03.5', ':03,25', ':03.1234567', ':3', ':03.', ':03.123456', ':03Z', ':59.999999999'])
    else:
        s = n() + frac()
    return r.choice(['', '', '', '-', '+', '--']) + s


ALPHA = '0123456789:-+.,TtZ _PDdHMSWY ayx/\u2212\u00e9\u20ac'


def mutate(r, s):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.random()
        i = r.randint(0, len(s))
        if k < .35 and s:
            s = s[:max(i - 1, 0)] + s[i:]
        elif k < .65:
            s = s[:i] + r.choice(ALPHA) + s[i:]
        elif k < .9 and i < len(s):
            s = s[:i] + r.choice(ALPHA) + s[i + 1:]
        else:
            s = s[:i]
    return s


def sane(s):
    """Numbers of duration parts stay within 32-bit arithmetic, fractions within four digits; spellings of
    floats far from their decimal value are left out."""
    import re
    b = s.lstrip('+-')
    if b.startswith('P') or s[1:].startswith('P'):
        if re.search(r'\d{6,}', s) or re.search(r'[.,]\d{5,}', s):
            return False
    m = re.fullmatch(r'[+-]?(\d+)\.(\d+)', s)
    if m:
        i = m.group(1).lstrip('0')
        if len(i) > 7 and m.group(2) not in ('0', '5', '25', '75', '000', '00', '50', '250', '500'):
            return False
        if len(i) > 15:
            return False
        if len(m.group(2)) > 7 or (len(m.group(2)) == 7 and m.group(2)[6] == '5'):
            return False
    return True


def text(r, kind):
    while True:
        x = r.random()
        k = kind if x < .75 else r.choice(KINDS)
        if x > .85:
            s = numtext(r, kind)
        elif k == 'date':
            s = show_date(r, ymd(r))
        elif k == 'time':
            s = show_clock(r, clock(r)) + show_zone(r, zone(r))
        elif k == 'datetime':
            s = show_date(r, ymd(r)) + r.choice('TTTTTt _') + show_clock(r, clock(r)) + show_zone(r, zone(r))
        else:
            s = durtext(r)
        y = r.random()
        if y < .3:
            s = mutate(r, s)
        elif y < .33:
            s = r.choice(['0000-01-01', '0000-02-29', '0000-12-31T23:59:59Z', '0001-01-01', '2021-02-29', '1900-02-29', '2000-02-29T00:00', '2020-13-01', '2020-00-10', '2020-04-31', '2020-01-00',
                          '24:00', '12:60', '12:34:60', '12:34:56.', '12:34+24:00', '12:34-23:59', '12:34+00:60', '', 'x', '2020-01-01T', '2020-01-01 ', '2020-01-01T00:00:00+0000', '2020-01-01T00:00:00\u221201:00',
                          'P', 'PT', 'P1', 'T', 'PT1', 'P1T', 'PT0S', '-PT0S', 'P0D', '-P999999999DT1S', '-P999999999D', 'P999999999D', '-999999999d 00:00:01', '999999999 days, 23:59:59.999999'][:])
        if sane(s):
            return s


def floatv(r, kind):
    x = r.random()
    if x < .15:
        return F(r.choice([float('nan'), float('inf'), float('-inf'), -0.0, 0.0]))
    if x < .55:
        return F(r.choice([1, -1]) * r.choice([0, 1, 2, 59, 86399, 86400, 100000, 1234567]) + r.choice([0, .25, .5, .75, -.25, .1, .123456, .000001, .999999, -.000001, .9999999]))
    n = num(r, kind)
    while abs(n) in (20000000000, 20000000001) or abs(n) > 10**14:
        n = num(r, kind)
    return F(n + (r.choice([.5, .25, -.25]) if abs(n) < 10**12 and r.random() < .6 else 0.0))


def junk(r, kind, mode):
    v = [N, B(True), B(False), L(), M(), S('abc'), I(5)]
    if mode == 'python':
        v += [OBJ, T(I(1)), CLS('int'), D('1.5'), D('NaN'), D('86400'), D('-2.25'), {'t': 'intsub', 'i': 7}, {'t': 'floatsub', 'q': 6}, {'t': 'floatsub', 'q': -6}, E('EInt', 'ONE'), E('EPlain', 'A'), E('EStr', 'N'),
              E('EFlo', 'W'), BA('2020-01-01'), BY(b'\xff\xfe'), BY(b'\xff' * 12)]
    return copy.deepcopy(r.choice(v))


def inp(r, kind, mode):
    x = r.random()
    if mode == 'strings':
        return S(text(r, kind)) if x < .95 else r.choice([M(), M(('a', S('1')))])
    if mode == 'json':
        if x < .6:
            return S(text(r, kind))
        return I(num(r, kind)) if x < .8 else floatv(r, kind) if x < .93 else junk(r, kind, mode)
    if x < .3:
        return value(r, kind)
    if x < .4:
        return value(r, r.choice(KINDS))
    if x < .7:
        s = text(r, kind)
        return S(s) if r.random() < .7 else BY(s) if r.random() < .5 else {'t': 'strsub', 's': s} if r.random() < .7 else BSUB(s)
    return I(num(r, kind)) if x < .82 else floatv(r, kind) if x < .94 else junk(r, kind, mode)


def bound(r, kind):
    v = value(r, kind, 0)
    if kind == 'time':
        v['p'] = [12, 0, 0, r.choice([0, 1])] if r.random() < .5 else v['p']
    if kind in ('date', 'datetime') and r.random() < .6:
        v['p'] = [2000, 1, 1] + v['p'][3:]
    if kind == 'timedelta' and r.random() < .6:
        v['days'] = r.choice([0, 1, -1])
    return v


def schema(r, kind, constrained=.5):
    s = {'type': kind}
    if r.random() < constrained:
        for k in r.sample(['le', 'lt', 'ge', 'gt'], r.choice([0, 1, 1, 2])):
            s[k] = bound(r, kind)
        if kind in ('date', 'datetime') and r.random() < .25:
            s['now_op'] = r.choice(['past', 'future'])
            if r.random() < .4:
                s['now_utc_offset'] = r.choice([0, 3600, -3600, 86340])
        if kind in ('time', 'datetime') and r.random() < .3:
            s['tz_constraint'] = r.choice([S('naive'), S('aware'), I(0), I(3600), I(-3600), I(19800)])
    if kind != 'date' and r.random() < .25:
        s['microseconds_precision'] = r.choice(['truncate', 'error'])
    if r.random() < .15:
        s['strict'] = r.random() < .8
    return s


def far(v):
    """(the present must not lie near)"""
    return v


def near(r, s, kind):
    """A value close to one of the bounds."""
    ks = [k for k in ('le', 'lt', 'ge', 'gt') if k in s]
    if not ks:
        return None
    v = copy.deepcopy(s[r.choice(ks)])
    x = r.random()
    if kind in ('time', 'datetime'):
        if x < .3:
            v.update(zone(r))
        elif x < .6 and v['tz']:
            # the same moment elsewhere, when the clock does not pass midnight
            h = v['p'][-4]
            k = r.choice([-1, 1])
            if 0 <= h + k < 24 and abs(v['off'] + 3600 * k) < 86400:
                v['p'][-4] += k
                v['off'] += 3600 * k
        if r.random() < .3:
            v['p'][-1] = (v['p'][-1] + 1) % 1000000
    elif kind == 'date' and x < .4:
        v['p'][2] = max(1, min(28, v['p'][2] + r.choice([-1, 1])))
    elif kind == 'timedelta' and x < .5:
        v['us'] = (v['us'] + r.choice([1, 999999])) % 1000000
    return v


def ok_now(s, x):
    return True


def ops_for(r, s, kind, n):
    ops = []
    for _ in range(n):
        mode = r.choices(['python', 'json', 'strings'], [5, 3, 1.5])[0]
        x = near(r, s, kind) if r.random() < .35 and mode == 'python' else None
        if x is None:
            x = inp(r, kind, mode)
        ops.append(val(x, mode, strict=r.choice(['none', 'none', 'none', 'true', 'false'])))
    return ops


def wrap(r, s, kind):
    """The schema somewhere inside others."""
    x = r.random()
    if x < .25:
        return {'type': 'list', 'items_schema': s}, lambda v, m: L(v)
    if x < .5:
        return {'type': 'dict', 'keys_schema': s, 'values_schema': {'type': 'any'}}, lambda v, m: M((v['s'] if v['t'] == 'str' else v, I(1))) if m == 'python' and v['t'] not in ('list', 'dict', 'bytearray', 'fsp') or v['t'] == 'str' else L()
    other = schema(r, r.choice([k for k in KINDS if k != kind]), .2)
    if x < .85:
        c = [{'schema': s}, {'schema': other}]
        if r.random() < .5:
            c.append({'schema': {'type': r.choice(['int', 'str', 'float', 'bool'])}})
        r.shuffle(c)
        u = {'type': 'union', 'choices': c}
        if r.random() < .3:
            u['mode'] = 'left_to_right'
        return u, lambda v, m: v
    return {'type': 'nullable', 'schema': s}, lambda v, m: v


def temporal_ser(r, n):
    out = []
    for _ in range(n):
        kinds = [r.choice(KINDS) for _ in range(3)]
        cfg = {'ser_json_timedelta': r.choice(['iso8601', 'float'])} if r.random() < .4 else {}
        sch = [{'type': k} for k in kinds] + [{'type': 'any'}]
        k = kinds[0]
        sch.append(r.choice([{'type': 'list', 'items_schema': {'type': k}}, {'type': 'dict', 'keys_schema': {'type': k}, 'values_schema': {'type': kinds[1]}}, {'type': 'union', 'choices': [{'schema': {'type': q}} for q in dict.fromkeys(kinds)]}]))
        ops = []
        for i in range(8):
            s = r.randint(1, 5)
            v = value(r, kinds[s - 1] if s <= 3 and r.random() < .8 else r.choice(KINDS))
            if v['t'] == 'td' and v.get('sub') and abs(v['days']) > 1000:
                v.pop('sub')
            if s == 5 and sch[4]['type'] == 'list':
                v = L(v, value(r, k))
            elif s == 5 and sch[4]['type'] == 'dict':
                v = M((v, value(r, kinds[1])))
            elif r.random() < .1:
                v = r.choice([S('2020-01-01'), I(1), N])
            op = r.choice(['to_python', 'to_json', 'to_json', 'm_to_json', 'm_to_jsonable'])
            o = {'op': op, 's': s, 'x': v, 'mode': r.choice(['json', 'json', 'python']) if op == 'to_python' else '', 'warnings': r.choice(['none', 'warn', 'warn'])}
            if op.startswith('m_'):
                o.pop('s'), o.pop('warnings'), o.pop('mode')
                if r.random() < .4:
                    o['timedelta_mode'] = r.choice(['iso8601', 'float'])
            ops.append(o)
        out.append(case([{'v': q, 'ser': True, 'only_ser': True} for q in sch], ops, cfg=cfg or None))
    return out


def there_and_back(r, n):
    out = []
    for _ in range(n):
        kind = r.choice(KINDS)
        s, w = {'type': kind}, lambda v: v
        x = r.random()
        if x < .3:
            s, w = {'type': 'list', 'items_schema': s}, lambda v: L(v)
        elif x < .5:
            s, w = {'type': 'dict', 'keys_schema': s, 'values_schema': {'type': 'int'}}, lambda v: M((v, I(1)))
        ops = []
        for _ in range(6):
            ops.append({'op': 'roundtrip', 's': 1, 'x': w(value(r, kind, 0)), 'mode': 'python', 'ser': {'op': 'to_json', 's': 1}})
        out.append(case([{'v': s, 'ser': True}], ops))
    return out


def p30(rng, tier):
    r = rng
    out = []
    k = 1 if tier == 'quick' else 8
    for _ in range(420 * k):
        kind = r.choice(KINDS)
        s = schema(r, kind)
        cfg = {'microseconds_precision': r.choice(['truncate', 'error'])} if r.random() < .2 else {}
        ops = ops_for(r, s, kind, 14)
        if r.random() < .25:
            s2, w = wrap(r, s, kind)
            for o in ops:
                o['x'] = w(o['x'], o['mode'])
            s = s2
        out.append(case(s, ops, cfg=cfg))
    out += temporal_ser(r, 150 * k)
    out += there_and_back(r, 40 * k)
    return out
