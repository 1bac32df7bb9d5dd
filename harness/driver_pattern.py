"""Text of a pattern of the model's regular-expression subset."""
ESC = set('\\^$.|?*+()[]{}')


def rx_class(cs):
    return ''.join('\\' + c if c in '\\]^-[' else c for c in cs)


def pattern_src(p):
    out = '^' if p['b'] else ''
    for a in p['a']:
        if a['any']:
            s = '.'
        elif a['not']:
            s = '[^' + rx_class(a['cs']) + ']'
        elif len(a['cs']) == 1:
            s = ('\\' if a['cs'][0] in ESC else '') + a['cs'][0]
        else:
            s = '[' + rx_class(a['cs']) + ']'
        lo, hi = a['lo'], a['hi']
        if (lo, hi) == (1, 1):
            q = ''
        elif hi >= 99:
            q = '*' if lo == 0 else '+' if lo == 1 else '{%d,}' % lo
        elif (lo, hi) == (0, 1):
            q = '?'
        else:
            q = '{%d,%d}' % (lo, hi)
        out += s + q
    return out + ('$' if p['e'] else '')
