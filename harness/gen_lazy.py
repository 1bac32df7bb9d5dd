"""Lazy iterators: histories of opening and pulling them (P18)."""
from __future__ import annotations
import copy

from gen_nested import *
from gen_props import finish

SRCS = [[1, 2, 3], ['1', 'x', 3], [], [1], ['x', 'y'], [1, 'x', 2, None, 3], [1.5, 2, '4', 5]]


class LG(G):
    def __init__(self, rng, **kw):
        kw.setdefault('weights', {'generator': 6, 'call': 0, 'function-after': .2, 'function-wrap': .2, 'function-plain': .2, 'chain': .1,
                                  'set': .1, 'frozenset': .1, 'dataclass': .3, 'typed-dict': .6, 'arguments': .2})
        super().__init__(rng, **kw)
        self.lists = []
        self.once = False

    def s_generator(self, d):
        r = self.rng
        s = {'type': 'generator'}
        if self.p(.85):
            s['items_schema'] = self.schema(d + 1) if self.p(.5) else self.make(r.choice(['int', 'int', 'str', 'bool', 'float']), d + 1)
        return self.sizes(s)

    def val(self, s, mode, plain, depth):
        if s['type'] == 'generator':
            return self.v_generator(s, mode, plain, depth) if mode != 'strings' else S(self.rng.choice(['a', '1']))
        return super().val(s, mode, plain, depth)

    def v_generator(self, s, mode, plain, depth):
        r = self.rng
        n = r.choice([0, 1, 2, 2, 3, 3, 4])
        it = s.get('items_schema', {'type': 'any'})
        if mode != 'strings' and self.p(.1):
            return S(r.choice(['', '12', 'a1', '123x']))
        items = [self.value(it, mode, plain, depth + 1) for _ in range(n)]
        if mode == 'json' or mode == 'strings':
            if mode == 'json' and self.p(.1):
                return M(*[(k, I(1)) for k in r.sample(['1', '2', 'a'], r.choice([1, 2]))])
            return L(*items)
        if plain:
            return T(*items)
        x = r.random()
        if x < .4:
            return self.cell({'t': 'src', 'l': items, 'fail': r.randrange(n + 1) if self.p(.25) else -1, 'at': 0})
        if x < .6:
            c = self.cell(L(*items))
            self.lists.append(c)
            return c
        if x < .65:
            return BY(r.choice(['', '12', 'a']))
        if x < .7:
            return M(*[(k, I(1)) for k in r.sample(['1', '2', 'a'], r.choice([1, 2]))])
        if x < .85:
            return T(*items)
        if x < .92:
            return self.cell(ITB('once' if self.once else 'iter', items, r.randrange(n + 1) if self.p(.3) else -1))
        return L(*items)


def walk(s):
    if isinstance(s, dict):
        yield s
        for v in s.values():
            yield from walk(v)
    elif isinstance(s, list):
        for v in s:
            yield from walk(v)


def usable(s):
    """No user function may be handed an iterator, none may look at the data of an enclosing model."""
    for n in walk(s):
        if 'f' in n and 'b' in n:
            n.pop('info', None)
            if n.get('data'):
                return False
        n.pop('post_init', None)
        t = n.get('type')
        if t in ('function-after', 'function-wrap', 'function-plain', 'chain', 'call', 'dict', 'set', 'frozenset') and "'generator'" in str({
                k: v for k, v in n.items() if k not in ('type', 'values_schema')}):
            return False
        if t in ('union', 'tagged-union', 'lax-or-strict', 'json-or-python') and any(k in str(n) for k in ("'list'", "'tuple'", "'set'", "'frozenset'")):
            return False    # (would eat the source)
        if n.get('cls') in ('DP', 'DQ') and "'generator'" in str(n):
            return False
        if t == 'generator' and 'on_error' in str(n) and 'omit' in str(n):
            return False
    return "'generator'" in str(s) and "'gen'" not in str(s)


def lazy(rng, n, depth=3, npull=10):
    out = []
    while len(out) < n:
        g = LG(rng, depth=depth)
        g.part_off = False
        s = g.make('generator', 1) if g.p(.5) else g.schema()
        if not usable(s):
            continue
        cfg = g.topcfg()
        ops, opens = [], 0
        # (nothing that looks at the input twice)
        g.once = not any(k in str(s) for k in ("'union'", "'tagged-union'", "'default'", "'function-", "'lax-or-strict'", "'strict'", "'from_attributes'"))
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = g.op(s, ('python', 'python', 'json', 'strings') if g.p(.3) else ('python',))
            o['op'] = 'validate'
            ops.append(o)
            opens += 1
        if "'gen'" in str(g.heap) or "'gen'" in str(ops):
            continue
        if rng.random() < .3 and g.heap and "'once'" not in str(g.heap):
            o = copy.deepcopy(ops[-1])
            ops.append(o)
        for _ in range(npull):
            if g.lists and g.p(.15):
                ops.insert(rng.randint(0, len(ops)), {'op': 'push', 's': 1, 'm': rng.choice(g.lists), 'x': rng.choice([I(7), S('z'), S('5')])})
            at = rng.randint(1, len(ops)) if g.p(.3) else len(ops)
            ops.insert(at, {'op': 'pull', 's': 1, 'g': rng.choice([1, 1, 1, 2, 2, 3, 4])})
        out.append(finish(g, s, ops, cfg))
    return out


def p18(rng, tier):
    k = 6 if tier == 'thorough' else 1
    return lazy(rng, 1500 * k) + lazy(rng, 600 * k, depth=2, npull=16)
