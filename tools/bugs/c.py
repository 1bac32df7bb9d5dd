HEAD = '''
from pydantic_core import SchemaValidator, SchemaSerializer, ValidationError, ArgsKwargs
import dataclasses, enum, json, datetime, warnings
def outcome(v, x, json=False, **kw):
    try:
        return ('ok', (v.validate_json if json else v.validate_python)(x, **kw))
    except ValidationError as e:
        return ('err', [(d['type'], d['loc']) for d in e.errors(include_url=False)])
class M:
    __slots__ = ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__')
def field(s, **kw):
    return dict({'type': 'model-field', 'schema': s}, **kw)
def model(fields, cls=M, inner=None, **kw):
    return dict({'type': 'model', 'cls': cls, 'schema': dict({'type': 'model-fields', 'fields': fields}, **(inner or {}))}, **kw)
I, S = {'type': 'int'}, {'type': 'str'}
'''
BUGS = [
    dict(id='c05-tuple-tail-index', property='P05',
         edits=[('src/validators/tuple.rs', 'let mut index = collection_iter.next_calls();', 'let mut index = 0;')],
         needs='a tuple schema with items before and after the variadic item, an input without any variadic items and a bad item at the end',
         breaks='the location of the error of the tail item is 0',
         demo=HEAD + '''
v = SchemaValidator({'type': 'tuple', 'items_schema': [S, I, I], 'variadic_item_index': 1})
assert outcome(v, ['a', 'x']) == ('err', [('int_parsing', (1,))]), outcome(v, ['a', 'x'])
'''),
    dict(id='c07-tagged-from-attributes', property='P07',
         edits=[('src/validators/union.rs', 'let from_attributes = state.extra().from_attributes.unwrap_or(self.from_attributes);',
                 'let from_attributes = self.from_attributes && state.extra().from_attributes.unwrap_or(true);')],
         needs='a tagged union built with from_attributes=False, validated with from_attributes=True',
         breaks='the argument no longer overrides the schema: an object with the right attributes is refused',
         demo=HEAD + '''
a = {'type': 'model-fields', 'fields': {'k': field({'type': 'literal', 'expected': ['a']}), 'v': field(I)}, 'from_attributes': True}
b = {'type': 'model-fields', 'fields': {'k': field({'type': 'literal', 'expected': ['b']}), 'v': field(S)}, 'from_attributes': True}
v = SchemaValidator({'type': 'tagged-union', 'discriminator': 'k', 'choices': {'a': a, 'b': b}, 'from_attributes': False})
class O: pass
o = O(); o.k = 'a'; o.v = '3'
assert outcome(v, o)[0] == 'err'
assert outcome(v, o, from_attributes=True)[0] == 'ok', outcome(v, o, from_attributes=True)
'''),
    dict(id='c13-guard-forgets-first', property='P13',
         edits=[('src/recursion_guard.rs', 'for existing in data.iter() {', 'for existing in data.iter().skip(1) {')],
         needs='a cycle of more than 16 objects',
         breaks='the cycle is followed a second time before it is noticed, so the error is reported at a location twice as deep',
         demo=HEAD + '''
v = SchemaValidator({'type': 'definitions', 'schema': {'type': 'definition-ref', 'schema_ref': 'n'}, 'definitions': [
    {'type': 'typed-dict', 'ref': 'n', 'fields': {'n': {'type': 'typed-dict-field', 'schema': {'type': 'definition-ref', 'schema_ref': 'n'}}}}]})
for k in (3, 16, 17, 20):
    ds = [{} for _ in range(k)]
    for i, d in enumerate(ds):
        d['n'] = ds[(i + 1) % k]
    r = outcome(v, ds[0])
    assert r == ('err', [('recursion_loop', ('n',) * k)]), (k, r)
'''),
    dict(id='c14-plain-field-name', property='P14',
         edits=[('src/validators/function.rs', '''                .clone()
                .map(Bound::unbind)
                .or_else(|| self.field_name.clone());
            let info = ValidationInfo::new(py, state.extra(), &self.config, field_name);
            self.func.call1(py, (input.to_object(py)?, info))
        } else {
            self.func.call1(py, (input.to_object(py)?,))
        };
        r.map_err(|e| convert_err(py, e, input))
    }

    fn get_name(&self) -> &str {
        &self.name
    }
}

#[derive(Debug)]''', '''                .clone()
                .map(Bound::unbind);
            let field_name = self.field_name.clone().or(field_name);
            let info = ValidationInfo::new(py, state.extra(), &self.config, field_name);
            self.func.call1(py, (input.to_object(py)?, info))
        } else {
            self.func.call1(py, (input.to_object(py)?,))
        };
        r.map_err(|e| convert_err(py, e, input))
    }

    fn get_name(&self) -> &str {
        &self.name
    }
}

#[derive(Debug)]''')],
         needs='a plain function validator with its own field_name which is used for a field of another name',
         breaks='info.field_name is the name given with the function and not the one of the field',
         demo=HEAD + '''
got = []
def f(x, info):
    got.append(info.field_name)
    return x
fn = {'type': 'function-plain', 'function': {'type': 'with-info', 'function': f, 'field_name': 'other'}}
v = SchemaValidator({'type': 'model-fields', 'fields': {'a': field(fn)}})
v.validate_python({'a': 1})
assert got == ['a'], got
'''),
    dict(id='c18-generator-item-by-name', property='P18',
         edits=[('src/validators/generator.rs', '            by_alias: extra.by_alias,\n            by_name: extra.by_name,\n        }\n    }\n\n    pub fn validate_assignment', '            by_alias: extra.by_alias,\n            by_name: None,\n        }\n    }\n\n    pub fn validate_assignment')],
         needs='by_name=True given to validation of a generator whose items have aliases',
         breaks='the items are not looked up by name when they are drawn',
         demo=HEAD + '''
v = SchemaValidator({'type': 'generator', 'items_schema': {'type': 'model-fields', 'fields': {'a': field(I, validation_alias='b')}}})
try:
    r = [x[0] for x in v.validate_python([{'a': 1}], by_name=True, by_alias=False)]
except ValidationError as e:
    r = e.errors(include_url=False)
assert r == [{'a': 1}], r
'''),
    dict(id='c21-json-infinity', property='P21',
         edits=[('src/serializers/infer.rs', '                if (v.is_nan() || v.is_infinite()) && extra.config.inf_nan_mode == InfNanMode::Null {\n                    return Ok(py.None());',
                 '                if (v.is_nan() || v == f64::INFINITY) && extra.config.inf_nan_mode == InfNanMode::Null {\n                    return Ok(py.None());')],
         needs='minus infinity in a value of an any schema, serialized by to_python in JSON mode',
         breaks='the text differs from the JSON mode of to_python',
         demo=HEAD + '''
s = SchemaSerializer({'type': 'any'})
for x in (float('inf'), float('-inf'), float('nan'), [1.5, float('-inf')]):
    t = s.to_json(x)
    assert json.loads(t) == s.to_python(x, mode='json'), (t, x)
'''),
    dict(id='c22-nested-union-lax-early', property='P22',
         edits=[('src/serializers/type_serializers/union.rs', 'if extra.check != SerCheck::Strict && retry_with_lax_check {', 'if retry_with_lax_check {')],
         needs='a union inside a union, with a value that fits a later choice of the outer union exactly and one in the inner union loosely',
         breaks='the inner union takes a subclass instance, so the exact choice of the outer union is not reached',
         demo=HEAD + '''
class A(M): pass
class B(A): pass
a = model({'x': field(I)}, A)
b = model({'x': field(I), 'y': field(I)}, B)
inner = {'type': 'union', 'choices': [a, S]}
s = SchemaSerializer({'type': 'union', 'choices': [{'type': 'nullable', 'schema': inner}, b]})
o = SchemaValidator(b).validate_python({'x': 1, 'y': 2})
assert s.to_python(o) == {'x': 1, 'y': 2}, s.to_python(o)
'''),
    dict(id='c27-list-not-copied', property='P27',
         edits=[('src/validators/list.rs', 'let list_copy = py_list.get_slice(0, usize::MAX);\n                    return Ok(list_copy.into());',
                 'if py_list.is_empty() {\n                        return Ok(py_list.clone().into());\n                    }\n                    let list_copy = py_list.get_slice(0, usize::MAX);\n                    return Ok(list_copy.into());')],
         needs='an empty list given to a list schema without items schema',
         breaks='the result is the input list itself and not a new one',
         demo=HEAD + '''
v = SchemaValidator({'type': 'list'})
for x in ([], [1]):
    r = v.validate_python(x)
    r.append(2)
    assert x in ([], [1]), x
'''),
    dict(id='c29-enum-big-int', property='P29',
         edits=[('src/validators/literal.rs', 'if let Ok(int_64) = k.extract::<i64>() {', 'if let Ok(int_64) = k.extract::<i32>().map(i64::from) {')],
         needs='an int literal outside of the 32 bit range and an int subclass or equal float',
         breaks='...',
         demo=HEAD + '''
class MyInt(int): pass
v = SchemaValidator({'type': 'literal', 'expected': [2 ** 40, 1]})
for x in (2 ** 40, MyInt(2 ** 40), 1, MyInt(1)):
    assert outcome(v, x)[0] == 'ok', (x, outcome(v, x))
for t in ('1099511627776', '1'):
    assert outcome(v, t, True)[0] == 'ok', t
E = enum.Enum('E', {'a': 2 ** 40, 'b': 1})
v = SchemaValidator({'type': 'enum', 'cls': E, 'members': [E.a, E.b]})
for x in (2 ** 40, float(2 ** 40), 1, 1.0):
    assert outcome(v, x)[0] == 'ok', (x, outcome(v, x))
for t in ('1099511627776', '1'):
    assert outcome(v, t, True)[0] == 'ok', t
'''),
    dict(id='c30-date-with-microseconds', property='P30',
         edits=[('src/validators/date.rs', '        microsecond: 0,\n        tz_offset', '        microsecond: dt.time.microsecond,\n        tz_offset')],
         needs='a datetime at midnight and a fraction of a second, validated as a date',
         breaks='the datetime is taken for a date although its time is not zero',
         demo=HEAD + '''
v = SchemaValidator({'type': 'date'})
for x in (datetime.datetime(2020, 1, 2, 0, 0, 0, 5), '2020-01-02T00:00:00.000005', 0.25):
    assert outcome(v, x) == ('err', [('date_from_datetime_inexact', ())]), (x, outcome(v, x))
'''),
    dict(id='c31-alias-path-property-error', property='P31',
         edits=[('src/lookup_key.rs', '                            Err(e) => return Err(e),\n', "                            Err(_) => continue 'outer,\n")],
         needs='from_attributes with an alias path whose second step is a property that raises',
         breaks='the error of the property is dropped and the field reported as missing',
         demo=HEAD + '''
class O:
    @property
    def q(self):
        raise RuntimeError('no')
class P: pass
p = P(); p.o = O(); p.z = 5
v = SchemaValidator({'type': 'model-fields', 'from_attributes': True, 'fields': {'a': field(I, validation_alias=[['o', 'q'], ['z']])}})
assert outcome(v, p) == ('err', [('get_attribute_error', ('a',))]) or outcome(v, p)[1][0][0] == 'get_attribute_error', outcome(v, p)
'''),
    dict(id='c33-unused-function-json-key', property='P33',
         edits=[('src/serializers/type_serializers/function.rs', '''                    Ok((false, v)) => self
                        .get_fallback_serializer()
                        .json_key(v.bind(py), extra)''', '''                    Ok((false, v)) => self
                        .return_serializer
                        .json_key(v.bind(py), extra)''')],
         needs='a dict key schema with a function serializer which is not used in JSON mode',
         breaks='the key is serialized by the return schema of the function and not by the schema itself',
         demo=HEAD + '''
k = {'type': 'datetime', 'serialization': {'type': 'function-plain', 'function': lambda x: 'k', 'when_used': 'unless-none', 'return_schema': S}}
k = {'type': 'nullable', 'schema': {'type': 'int'}, 'serialization': {'type': 'function-plain', 'function': lambda x: 'k', 'when_used': 'unless-none', 'return_schema': I}}
s = SchemaSerializer({'type': 'dict', 'keys_schema': k, 'values_schema': I})
with warnings.catch_warnings():
    warnings.simplefilter('error')
    assert s.to_json({None: 1}) == b'{"None":1}', s.to_json({None: 1})
    assert s.to_python({None: 1}, mode='json') == {'None': 1}
'''),
]
