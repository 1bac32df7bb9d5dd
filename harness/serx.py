"""Serialization side of the driver."""
from __future__ import annotations
import json
import re

from pydantic_core import (
    PydanticOmit, PydanticSerializationError, PydanticSerializationUnexpectedValue, ValidationError, to_json, to_jsonable_python,
)


class Pairs(list):
    """A JSON object as it was written, repeated keys included."""


def enc_json(w, v):
    if isinstance(v, Pairs):
        return {'t': 'dict', 'd': [[{'t': 'str', 's': k}, enc_json(w, x)] for k, x in v]}
    if isinstance(v, list):
        return {'t': 'list', 'l': [enc_json(w, x) for x in v]}
    return w.enc_new(v)


TOKEN = re.compile(r'\s+|"(?:[^"\\]|\\.)*"|[\[\]{},:]|[^\s\[\]{},:"]+', re.S)


def layout(text, indent):
    """The text of the same tokens, laid out as documented."""
    toks = [t for t in TOKEN.findall(text) if not t.isspace()]
    if indent is None:
        return ''.join(toks)
    out, level = [], 0
    for i, t in enumerate(toks):
        if t in '[{':
            level += 1
            out.append(t)
            if toks[i + 1] not in ']}':
                out.append('\n' + ' ' * (indent * level))
        elif t in ']}':
            level -= 1
            if toks[i - 1] not in '[{':
                out.append('\n' + ' ' * (indent * level))
            out.append(t)
        elif t == ',':
            out.append(',\n' + ' ' * (indent * level))
        elif t == ':':
            out.append(': ')
        else:
            out.append(t)
    return ''.join(out)


HEAD = 'Pydantic serializer warnings:\n  '
SEP = 'PydanticSerializationUnexpectedValue('
ENTRY = re.compile(r'^(?P<m>.*?)(?:: )?(?:Expected `(?P<ft>[^`]*)`(?: - serialized value may not be as expected)?)?'
                   r'(?: \[input_value=.*, input_type=(?P<it>\w*)\])?$', re.S)


def parse_warning(text):
    if not text.startswith(HEAD + SEP):
        return [{'m': 'not a serializer warning', 'ft': '', 'it': ''}]
    out = []
    for part in text[len(HEAD + SEP):].split('\n  ' + SEP):
        part = part[:-1]
        if part == 'Unexpected Value':
            part = ''
        m = ENTRY.match(part)
        out.append({'m': m['m'], 'ft': m['ft'] or '', 'it': m['it'] or ''})
    return out


def info(d, i):
    w = d.w
    r = {'n': 2, 'mode': i.mode if isinstance(i.mode, str) else str(i.mode)}
    for k, a in (('inc', 'include'), ('exc', 'exclude'), ('ctx', 'context')):
        v = getattr(i, a)
        r[k] = {'t': 'undef'} if v is None else w.enc(v)
    ba = i.by_alias
    r['ba'] = 'none' if ba is None else 'true' if ba else 'false'
    r['eu'], r['ed'], r['en'], r['rt'] = i.exclude_unset, i.exclude_defaults, i.exclude_none, i.round_trip
    r['any'] = i.serialize_as_any
    r['fname'] = getattr(i, 'field_name', '')
    return r


def act(d, f, x):
    if f['b'] == 'raise_unexp':
        raise PydanticSerializationUnexpectedValue('boom')
    if f['b'] == 'raise_ser':
        raise PydanticSerializationError('bad ' + f['f'])
    return d.act(f, x)


def act_wrap(d, f, x, h):
    w, b = d.w, f['b']
    if b == 'call':
        return h(x)
    if b == 'reenter':
        d.again(f)
        return h(x)
    if b == 'call_key':
        return h(x, w.dec(f['key']))
    if b == 'call_const':
        return h(w.dec(f['v']))
    if b == 'call_list':
        return [h(x)]
    if b == 'catch':
        try:
            return h(x)
        except Exception:
            return w.dec(f['v'])
    if b == 'twice':
        h(x)
        return h(x)
    return act(d, f, x)


def function(d, v):
    w, f = d.w, v['function']
    field, with_info, wrap = v.get('is_field_serializer'), v.get('info_arg'), v['type'] == 'function-wrap'

    def g(*a):
        a = list(a)
        i = info(d, a.pop()) if with_info else {'n': 0}
        h = a.pop() if wrap else None
        w.note(f['f'], a, i)
        return act_wrap(d, f, a[-1], h) if wrap else act(d, f, a[-1])
    g._label = g.__name__ = g.__qualname__ = f['f']
    return g


def ser_schema(d, v):
    out = {}
    for k, x in v.items():
        if k in ('return_schema', 'schema'):
            out[k] = d.schema(x)
        elif k in ('include', 'exclude'):
            out[k] = {d.w.dec(i) for i in x}
        elif k == 'function' and v['type'] in ('function-plain', 'function-wrap'):
            out[k] = function(d, v)
        else:
            out[k] = x
    if v['type'] not in ('function-plain', 'function-wrap', 'include-exclude-sequence', 'include-exclude-dict', 'base64',
                         'format', 'to-string', 'simple', 'model'):
        return d.schema(v)
    return out


def roundtrip(d, op):
    """validate, serialize, validate again, serialize again; validate the validated value"""
    w, so = d.w, op['ser']
    v, z = d.validators[op['s'] - 1], d.serializers[op['s'] - 1]
    kw = d.kw(op, ('strict', 'by_alias', 'by_name'))
    js = so['op'] == 'to_json'
    skw = dict(ser_kw(d, so), warnings=False)
    ser = (lambda x: z.to_json(x, **skw)) if js else (lambda x: z.to_python(x, mode=so.get('mode', 'python'), **skw))

    def enc(t):
        if op.get('noto'):
            return w.enc(None)
        return enc_json(w, json.loads(t, object_pairs_hook=Pairs)) if js else w.enc(t)

    def stage(f):
        try:
            return f(), None
        except ValidationError:
            return None, '<errs>'
        except BaseException as e:
            if type(e).__name__ == 'PanicException':
                raise
            return None, '<exc>'
    x = d.jtext(op['x']) if op['mode'] == 'json' else w.dec(op['x'])
    try:
        v1 = v.validate_json(x, **kw) if op['mode'] == 'json' else v.validate_python(x, **kw)
    except BaseException as e:
        def again():
            raise e
        return d.catch(again)
    out = [w.enc(v1)]
    t1, bad = stage(lambda: ser(v1))
    if bad:
        out.append({'t': 'str', 's': bad})
    else:
        out.append(enc(t1))
        v2, bad = stage(lambda: v.validate_json(t1, **kw) if js else v.validate_python(t1, **kw))
        out.append({'t': 'str', 's': bad} if bad else w.enc(v2))
        if not bad:
            t2, bad = stage(lambda: ser(v2))
            out.append({'t': 'str', 's': bad} if bad else enc(t2))
    vi, bad = stage(lambda: v.validate_python(v1, **kw))
    out.append({'t': 'str', 's': bad} if bad else w.enc(vi))
    return {'k': 'ok', 'v': {'t': 'tuple', 'l': out}}


def ser_kw(d, op):
    w = d.w
    kw = {}
    if op.get('by_alias', 'none') != 'none':
        kw['by_alias'] = op['by_alias'] == 'true'
    for k, a in (('inc', 'include'), ('exc', 'exclude'), ('ctx', 'context')):
        if k in op:
            kw[a] = w.dec(op[k])
    for k, a in (('eu', 'exclude_unset'), ('ed', 'exclude_defaults'), ('en', 'exclude_none'), ('rt', 'round_trip'),
                 ('as_any', 'serialize_as_any'), ('su', 'serialize_unknown')):
        if k in op:
            kw[a] = op[k]
    for k in ('inf_nan_mode', 'bytes_mode', 'timedelta_mode'):
        if k in op:
            kw[k] = op[k]
    if 'warnings' in op:
        kw['warnings'] = op['warnings'] if op['warnings'] == 'error' else op['warnings'] == 'warn'
    if 'fb' in op:
        f = op['fb']

        def fallback(x):
            w.note(f['f'], [x])
            return act(d, f, x)
        kw['fallback'] = fallback
    return kw


def run_op(d, op):
    from driver import nesting
    w, o = d.w, op['op']
    if o == 'roundtrip':
        try:
            return roundtrip(d, op)
        except BaseException as e:
            return d.exc(e)
    kw = ser_kw(d, op)
    x = w.dec(op['x'])
    indent = op.get('indent')
    if indent is not None:
        kw['indent'] = indent
    if o == 'to_python':
        if 'mode' in op:
            kw['mode'] = op['mode']
        if op.get('measure'):
            return d.catch(lambda: nesting(d.serializers[op['s'] - 1].to_python(x, **kw)))
        return d.catch(lambda: d.serializers[op['s'] - 1].to_python(x, **kw), w.scribble if op.get('scribble') else None)
    if o == 'm_to_jsonable':
        return d.catch(lambda: to_jsonable_python(x, **kw), w.scribble if op.get('scribble') else None)
    try:
        data = d.serializers[op['s'] - 1].to_json(x, **kw) if o == 'to_json' else to_json(x, **kw)
    except BaseException as e:
        return d.exc(e)
    text = data.decode()
    if op.get('measure'):
        return {'k': 'ok', 'v': {'t': 'int', 'i': text.count('[') or 1}}
    v = json.loads(text, object_pairs_hook=Pairs)
    r = {'k': 'ok', 'v': enc_json(w, v), 'lay': layout(text, indent) == text}
    if indent is None and len(text) < 600:
        r['text'] = text
    return r
