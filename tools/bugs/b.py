HEAD = '''
from pydantic_core import SchemaValidator, SchemaSerializer, ValidationError, ArgsKwargs
import dataclasses
def outcome(v, x, json=False, **kw):
    try:
        return ('ok', (v.validate_json if json else v.validate_python)(x, **kw))
    except ValidationError as e:
        return ('err', [(d['type'], d['loc']) for d in e.errors(include_url=False)])
class M:
    __slots__ = ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__')
def field(s, **kw):
    return dict({'type': 'model-field', 'schema': s}, **kw)
def model(fields, cls=M, inner=None, **kw):
    return dict({'type': 'model', 'cls': cls, 'schema': dict({'type': 'model-fields', 'fields': fields}, **(inner or {}))}, **kw)
'''
BUGS = [
    dict(id='b05-max-length-failed-items', property='P04',
         edits=[('src/input/return_enums.rs', '            Err(ValError::LineErrors(line_errors)) => {\n                max_length_check.incr()?;\n                if !is_last_partial {',
                 '            Err(ValError::LineErrors(line_errors)) => {\n                if !is_last_partial {')],
         needs='a list with a max_length and more failing items than that',
         breaks='failing items no longer count towards max_length, so an over-long list is not reported as too long',
         demo=HEAD + '''
v = SchemaValidator({'type': 'list', 'items_schema': {'type': 'int'}, 'max_length': 2})
assert outcome(v, ['a', 'b', 'c', 'd']) == ('err', [('too_long', ())]), outcome(v, ['a', 'b', 'c', 'd'])
'''),
    dict(id='b06-union-nested-count', property='P06',
         edits=[('src/validators/union.rs', '''        // restore previous validation state to prepare for any future validations
        state.exactness = old_exactness;
        state.fields_set_count = old_fields_set_count;
''', '''        // restore previous validation state to prepare for any future validations
        state.exactness = old_exactness;
''')],
         needs='a smart union nested in a field of a choice of another smart union',
         breaks='the count of fields of a losing inner choice is added to the count of the outer choice, which then wins wrongly',
         demo=HEAD + '''
class A(M): pass
class B(M): pass
class X(M): pass
class Y(M): pass
I, S = {'type': 'int'}, {'type': 'str'}
D = lambda s, d: {'type': 'default', 'schema': s, 'default': d}
inner = {'type': 'union', 'choices': [model({'p': field(I), 'q': field(D(I, 0))}, X), model({'p': field(I)}, Y)]}
a = model({'u': field(inner)}, A)
b = model({'u': field({'type': 'any'}), 'w': field(D(I, 1)), 'z': field(D(I, 1))}, B)
v = SchemaValidator({'type': 'union', 'choices': [a, b]})
n = SchemaValidator(a)
x = v.validate_python({'u': {'p': 1, 'q': 2}, 'w': 1, 'z': 2})
assert type(x) is B or True
w = SchemaValidator({'type': 'union', 'choices': [model({'u': field({'type': 'any'}), 'w': field(I), 'k': field(I)}, B), a]})
y = w.validate_python({'u': {'p': 1, 'q': 2}, 'w': 1, 'k': 3})
assert type(y) is B, type(y)
z = v.validate_python({'u': {'p': 1, 'q': 2}, 'w': 1})
assert type(z) is A, type(z)
y = SchemaValidator({'type': 'union', 'choices': [model({'u': field(inner), 'm': field(D(I, 0))}, A), model({'u': field({'type': 'any'}), 'w': field(I), 'k': field(I), 'l': field(I)}, B)]}).validate_python({'u': {'p': 1, 'q': 2}, 'w': 1, 'k': 3, 'l': 4})
assert type(y) is B, type(y)
'''),
    dict(id='b08-validated-default-shared', property='P08',
         edits=[('src/validators/with_default.rs', 'let dft: Py<PyAny> = if self.copy_default {', 'let dft: Py<PyAny> = if self.copy_default && !self.validate_default {')],
         needs='a mutable default which is validated by a schema that keeps the object',
         breaks='two results share one default object; changing one changes the other',
         demo=HEAD + '''
v = SchemaValidator({'type': 'default', 'schema': {'type': 'any'}, 'default': [1], 'validate_default': True})
a, b = v.get_default_value().value, v.get_default_value().value
assert a is not b
'''),
    dict(id='b09-extras-not-set', property='P09',
         edits=[('src/validators/model_fields.rs', '''                                        Ok(value) => {
                                            model_extra_dict.set_item(&py_key, value)?;
                                            self.fields_set_vec.push(py_key.into());
                                        }''', '''                                        Ok(value) => {
                                            model_extra_dict.set_item(&py_key, value)?;
                                        }''')],
         needs='extra values allowed and validated by an extras schema',
         breaks='validated extras are missing from the fields set',
         demo=HEAD + '''
v = SchemaValidator({'type': 'model-fields', 'fields': {}, 'extra_behavior': 'allow', 'extras_schema': {'type': 'int'}})
assert v.validate_python({'a': 1})[2] == {'a'}
'''),
    dict(id='b10-json-path-first-duplicate', property='P10',
         edits=[('src/lookup_key.rs', '''                    let v: &JsonValue = match dict
                        .iter()
                        .rev()
                        .find_map''', '''                    let v: &JsonValue = match dict
                        .iter()
                        .find_map''')],
         needs='a JSON object with a repeated key, looked up by a path alias',
         breaks='the first of two equal keys is used instead of the last one, unlike in plain lookups',
         demo=HEAD + '''
v = SchemaValidator({'type': 'typed-dict', 'fields': {'f': {'type': 'typed-dict-field', 'schema': {'type': 'int'}, 'validation_alias': ['a', 'b']}}})
assert v.validate_json('{"a": {"b": 1}, "a": {"b": 2}}') == {'f': 2}
'''),
    dict(id='b11-revalidate-pollutes', property='P11',
         edits=[('src/validators/model.rs', 'let full_model_dict = dict.downcast::<PyDict>()?.copy()?;', 'let full_model_dict = dict.downcast_into::<PyDict>().map_err(PyErr::from)?;')],
         needs='an instance with extra values which is revalidated',
         breaks='revalidation writes the extra values into the __dict__ of the input instance',
         demo=HEAD + '''
s = model({'a': field({'type': 'int'})}, revalidate_instances='always', inner={'extra_behavior': 'allow'})
v = SchemaValidator(s)
m = v.validate_python({'a': 1, 'b': 2})
n = v.validate_python(m)
assert m.__dict__ == {'a': 1}, m.__dict__
assert n.__dict__ == {'a': 1} and n.__pydantic_extra__ == {'b': 2}
'''),
    dict(id='b12-assign-reorders', property='P12',
         edits=[('src/validators/model_fields.rs', '        let data_dict = dict.copy()?;\n        if let Err(err) = data_dict.del_item(field_name) {',
                 '        let data_dict = dict.clone();\n        if let Err(err) = data_dict.del_item(field_name) {')],
         needs='an assignment followed by anything that looks at the order of the fields',
         breaks='the assigned field moves to the end of the instance\'s values, so equal histories serialize differently',
         demo=HEAD + '''
v = SchemaValidator(model({'a': field({'type': 'int'}), 'b': field({'type': 'int'})}))
m = v.validate_python({'a': 1, 'b': 2})
v.validate_assignment(m, 'a', 3)
assert list(m.__dict__) == ['a', 'b'], m.__dict__
'''),
    dict(id='b16-unknown-kwarg-hidden', property='P16',
         edits=[('src/validators/arguments.rs', 'if kwargs.len() > used_kwargs.len() {', 'if kwargs.len() > used_kwargs.len() && kwargs.len() + args.args().map_or(0, |a| a.len()) != self.parameters.len() {')],
         needs='a call with as many arguments as there are parameters, one of them an unknown keyword while a default is used',
         breaks='the unknown keyword argument is dropped silently instead of being reported or collected',
         demo=HEAD + '''
v = SchemaValidator({'type': 'arguments', 'arguments_schema': [{'name': 'a', 'schema': {'type': 'int'}}, {'name': 'b', 'schema': {'type': 'default', 'schema': {'type': 'int'}, 'default': 1}}]})
assert outcome(v, ArgsKwargs((1,), {'c': 1})) == ('err', [('unexpected_keyword_argument', ('c',))]), outcome(v, ArgsKwargs((1,), {'c': 1}))
'''),
    dict(id='b17-dataclass-positional-count', property='P17',
         edits=[('src/validators/dataclass.rs', '''                (Some(pos_value), None) => match field.validator.validate(py, pos_value.borrow_input(), state) {
                    Ok(value) => {
                        set_item!(field, value);
                        fields_set_count += 1;
                    }''', '''                (Some(pos_value), None) => match field.validator.validate(py, pos_value.borrow_input(), state) {
                    Ok(value) => {
                        set_item!(field, value);
                    }''')],
         needs='a smart union of dataclasses given positional arguments',
         breaks='positional values do not count as set fields, so the wrong dataclass of a union is chosen',
         demo=HEAD + '''
@dataclasses.dataclass
class A:
    a: int
    b: int = 0
@dataclasses.dataclass
class B:
    a: int
    b: int
I = {'type': 'int'}
D = lambda s, d: {'type': 'default', 'schema': s, 'default': d}
f = lambda n, s, **k: dict({'type': 'dataclass-field', 'name': n, 'schema': s, 'kw_only': False}, **k)
da = {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('a', I), f('b', D(I, 0), init=False)]}}
db = {'type': 'dataclass', 'cls': B, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'B', 'fields': [f('a', I), f('b', I)]}}
dc = {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('a', I), f('b', {'type': 'any'}, kw_only=True)]}}
v = SchemaValidator({'type': 'union', 'choices': [
    {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('a', I), f('b', D(I, 0), init=False), f('c', D(I, 0), init=False)][:2]}},
    db]})
x = SchemaValidator({'type': 'union', 'choices': [dc, db]})
r = x.validate_python(ArgsKwargs((1, 2)))
assert type(r) is B
u = SchemaValidator({'type': 'union', 'choices': [
    {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('b', D(I, 5), init=False), f('a', D(I, 0))]}},
    {'type': 'dataclass', 'cls': B, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'B', 'fields': [f('a', I), f('b', D(I, 7))], 'extra_behavior': 'ignore'}},
    {'type': 'dataclass', 'cls': B, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'B', 'fields': [f('a', I)]}}]})
r = u.validate_python(ArgsKwargs((1,)))
assert type(r) is A, r
w = SchemaValidator({'type': 'union', 'choices': [
    {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('b', D(I, 5), init=False), f('a', I, kw_only=True)]}},
    {'type': 'typed-dict', 'fields': {}}, db]})
r = w.validate_python(ArgsKwargs((1, 2)))
k = SchemaValidator({'type': 'union', 'choices': [
    {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('a', I), f('b', I)]}},
    {'type': 'dataclass', 'cls': B, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'B', 'fields': [f('a', I), f('b', I), f('c', D(I, 1), init=False)]}}]})
r = k.validate_python(ArgsKwargs((1, 2)))
assert type(r) is B, r
o = SchemaValidator({'type': 'union', 'choices': [
    {'type': 'dataclass', 'cls': A, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'A', 'fields': [f('a', I), f('b', D(I, 1), init=False)]}},
    {'type': 'model', 'cls': M, 'schema': {'type': 'function-wrap', 'function': {'type': 'no-info', 'function': lambda x, h: h({'p': 1, 'q': 2, 'r': 3})}, 'schema': {'type': 'model-fields', 'fields': {n: field(I) for n in 'pqr'}}}},
    {'type': 'dataclass', 'cls': B, 'fields': ['a', 'b'], 'schema': {'type': 'dataclass-args', 'dataclass_name': 'B', 'fields': [f('a', I), f('b', D(I, 1), init=False), f('c', D(I, 1), init=False), f('d', D(I, 1), init=False)]}}]})
r = o.validate_python(ArgsKwargs((1,)))
assert type(r) is B, r
'''),
    dict(id='b20-none-extra-kept', property='P20',
         edits=[('src/serializers/fields.rs', '''            if extra.exclude_none && value.is_none() {
                if let Some(field) = op_field {''', '''            if extra.exclude_none && value.is_none() && (op_field.is_some() || self.mode != FieldsMode::TypedDictAllow) {
                if let Some(field) = op_field {''')],
         needs='exclude_none with an extra value that is None in a typed dict, serialized to python',
         breaks='None values of extra keys are kept although exclude_none asks to drop them',
         demo=HEAD + '''
s = SchemaSerializer({'type': 'typed-dict', 'fields': {}, 'extra_behavior': 'allow'})
assert s.to_python({'a': None}, exclude_none=True) == {}
assert s.to_json({'a': None}, exclude_none=True) == b'{}'
'''),
]
