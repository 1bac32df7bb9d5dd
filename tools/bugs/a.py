HEAD = '''
from pydantic_core import SchemaValidator, SchemaSerializer, ValidationError
def outcome(v, x, **kw):
    try:
        return ('ok', v.validate_python(x, **kw))
    except ValidationError as e:
        return ('err', [(d['type'], d['loc']) for d in e.errors(include_url=False)])
'''
BUGS = [
    dict(id='b01-int-from-float-edge', property='P01',
         edits=[('src/input/shared.rs', '} else if (i64::MIN as f64) < float && float < (i64::MAX as f64) {',
                 '} else if (i64::MIN as f64) < float && float <= (i64::MAX as f64) {')],
         needs='a float equal to 2**63 given to an int schema in lax mode',
         breaks='the float 2**63 is accepted and silently becomes 2**63 - 1',
         demo=HEAD + '''
v = SchemaValidator({'type': 'int'})
r = outcome(v, float(2**63))
assert r[0] == 'err' or r[1] == 2**63, r
'''),
    dict(id='b02-multiple-of-big', property='P02',
         edits=[('src/input/return_enums.rs', '(Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),',
                 '(Int::I64(i), Int::Big(_)) => Int::Big(BigInt::from(i.wrapping_rem(i64::MAX))),')],
         needs='an integer constraint beyond 64 bits together with a machine-size value equal to 2**63 - 1',
         breaks='2**63 - 1 passes as a multiple of a bigger number',
         demo=HEAD + '''
v = SchemaValidator({'type': 'int', 'multiple_of': 2**64})
assert outcome(v, 2**63 - 1)[0] == 'err'
'''),
    dict(id='b03-strip-after-length', property='P02',
         edits=[('src/validators/string.rs', '            Some(str.chars().count())\n        } else {\n            None\n        };\n        if let Some(min_length)',
                 '            Some(if str.is_ascii() { either_str.as_cow()?.len().min(str.len() + 1) } else { str.chars().count() })\n        } else {\n            None\n        };\n        if let Some(min_length)')],
         needs='strip_whitespace together with a length bound and padding in the input',
         breaks='whitespace which strip_whitespace removes still counts towards min_length/max_length',
         demo=HEAD + '''
v = SchemaValidator({'type': 'str', 'strip_whitespace': True, 'min_length': 3})
assert outcome(v, 'ab ')[0] == 'err'
assert outcome(v, 'abc ')[0] == 'ok'
'''),
    dict(id='b04-strict-float-bool', property='P03',
         edits=[('src/validators/float.rs', '        let either_float = input.validate_float(state.strict_or(self.strict))?.unpack(state);\n        let float: f64 = either_float.as_f64();\n        if !self.allow_inf_nan && !float.is_finite() {',
                 '        let either_float = input.validate_float(self.strict || state.extra().strict.unwrap_or(false))?.unpack(state);\n        let float: f64 = either_float.as_f64();\n        if !self.allow_inf_nan && !float.is_finite() {')],
         needs='a constrained float schema which is strict, called with strict=False',
         breaks='strict=False given to the call no longer overrides the schema',
         demo=HEAD + '''
v = SchemaValidator({'type': 'float', 'gt': 0.0, 'strict': True})
assert outcome(v, '1.5', strict=False) == ('ok', 1.5)
assert outcome(v, '1.5')[0] == 'err'
'''),
]
