"""JSON text of JSON-shaped tagged values."""
import json
from pool import scalar


def jstr(s):
    return json.dumps(s, ensure_ascii=False)


def jnum(v):
    t = v['t']
    if t in ('int', 'big'):
        return str(scalar(v))
    if t == 'fsp':
        return {'inf': 'Infinity', '-inf': '-Infinity', 'nan': 'NaN', '-0.0': '-0.0'}[v['k']]
    return repr(scalar(v))


def jdump(v):
    """Duplicate keys are kept."""
    t = v['t']
    if t == 'none':
        return 'null'
    if t == 'bool':
        return 'true' if v['b'] else 'false'
    if t == 'str':
        return jstr(v['s'])
    if t == 'list':
        return '[' + ','.join(jdump(x) for x in v['l']) + ']'
    if t == 'dict':
        return '{' + ','.join(jstr(k['s']) + ':' + jdump(x) for k, x in v['d']) + '}'
    return jnum(v)
