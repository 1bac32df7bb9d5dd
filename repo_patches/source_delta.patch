From 5750ad663f74bda8c84144abf038a20a06a52e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 01/41] fix: reject a minus sign inside an integer string

The sign is taken off before leading zeros are stripped, so '0-1' must not parse as -1.
---
 src/input/shared.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/shared.rs b/src/input/shared.rs
index 1a90b41..859cb22 100644
--- a/src/input/shared.rs
+++ b/src/input/shared.rs
@@ -177,8 +177,8 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
     match char_iter.next() {
         // if we get a leading zero we continue
         Some((_, '0')) => (),
-        // if we get another digit or unary minus we return the whole string
-        Some((_, c)) if ('1'..='9').contains(&c) || c == '-' => return Some(s),
+        // if we get another digit we return the whole string
+        Some((_, c)) if ('1'..='9').contains(&c) => return Some(s),
         // anything else is invalid, we return None
         _ => return None,
     }
@@ -186,8 +186,8 @@ fn strip_leading_zeros(s: &str) -> Option<&str> {
         match c {
             // continue on more leading zeros or if we get an underscore we continue - we're "within the number"
             '0' | '_' => (),
-            // any other digit or unary minus we return the rest of the string
-            '1'..='9' | '-' => return Some(&s[i..]),
+            // any other digit we return the rest of the string
+            '1'..='9' => return Some(&s[i..]),
             // if we get a dot we return the rest of the string but include the last zero
             '.' => return Some(&s[(i - 1)..]),
             // anything else is invalid, we return None
-- 
2.43.0


From 8b3d8118a634ad4ce7d89e065294b7fec253f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 02/41] fix: do not panic on integer multiple_of of 0 or -1

A zero divisor is refused when the schema is built, and i64::MIN % -1 no longer overflows.
---
 src/input/return_enums.rs | 2 +-
 src/validators/int.rs     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6ac3824..6de9c30 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -707,7 +707,7 @@ impl Rem for &Int {
 
     fn rem(self, rhs: Self) -> Self::Output {
         match (self, rhs) {
-            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1 % i2),
+            (Int::I64(i1), Int::I64(i2)) => Int::I64(i1.wrapping_rem(*i2)),
             (Int::Big(b1), Int::Big(b2)) => Int::Big(b1 % b2),
             (Int::I64(i), Int::Big(b)) => Int::Big(BigInt::from(*i) % b),
             (Int::Big(b), Int::I64(i)) => Int::Big(b % BigInt::from(*i)),
diff --git a/src/validators/int.rs b/src/validators/int.rs
index 28d068c..5661da8 100644
--- a/src/validators/int.rs
+++ b/src/validators/int.rs
@@ -90,9 +90,13 @@ pub struct ConstrainedIntValidator {
 impl ConstrainedIntValidator {
     fn build(schema: &Bound<'_, PyDict>, config: Option<&Bound<'_, PyDict>>) -> PyResult<CombinedValidator> {
         let py = schema.py();
+        let multiple_of = validate_as_int(schema, intern!(py, "multiple_of"))?;
+        if matches!(multiple_of, Some(Int::I64(0))) {
+            return Err(PyValueError::new_err("'multiple_of' must not be zero"));
+        }
         Ok(Self {
             strict: is_strict(schema, config)?,
-            multiple_of: validate_as_int(schema, intern!(py, "multiple_of"))?,
+            multiple_of,
             le: validate_as_int(schema, intern!(py, "le"))?,
             lt: validate_as_int(schema, intern!(py, "lt"))?,
             ge: validate_as_int(schema, intern!(py, "ge"))?,
-- 
2.43.0


From c3d6af91011601f2d960e4c3f7fd8048ed191ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 03/41] fix: do not panic on PydanticUndefined input without a
 default

The value is validated by the inner validator instead.
---
 src/validators/with_default.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index 8100083..b5d945e 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -158,20 +158,21 @@ impl Validator for WithDefaultValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         if input.as_python().is_some_and(|py_input| py_input.is(&self.undefined)) {
-            Ok(self.default_value(py, None::<usize>, state)?.unwrap())
-        } else {
-            match self.validator.validate(py, input, state) {
-                Ok(v) => Ok(v),
-                Err(e) => match e {
-                    ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                    e => match self.on_error {
-                        OnError::Raise => Err(e),
-                        OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
-                        OnError::Omit => Err(ValError::Omit),
-                    },
-                },
+            if let Some(default) = self.default_value(py, None::<usize>, state)? {
+                return Ok(default);
             }
         }
+        match self.validator.validate(py, input, state) {
+            Ok(v) => Ok(v),
+            Err(e) => match e {
+                ValError::UseDefault => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                e => match self.on_error {
+                    OnError::Raise => Err(e),
+                    OnError::Default => Ok(self.default_value(py, None::<usize>, state)?.ok_or(e)?),
+                    OnError::Omit => Err(ValError::Omit),
+                },
+            },
+        }
     }
 
     fn default_value<'py>(
-- 
2.43.0


From 1564c558b3231c8a4df2683cc25b5dfbcb7b7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 04/41] fix: do not panic validating a large integer as a
 complex number

---
 src/input/input_python.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index e82cbae..48c9a34 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -657,10 +657,10 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                 0.0,
             ])));
         } else if self.is_exact_instance_of::<PyInt>() {
-            return Ok(ValidationMatch::lax(EitherComplex::Complex([
-                self.extract::<i64>().unwrap() as f64,
-                0.0,
-            ])));
+            // integers too large for a float are not valid complex numbers
+            if let Ok(float) = self.extract::<f64>() {
+                return Ok(ValidationMatch::lax(EitherComplex::Complex([float, 0.0])));
+            }
         }
         Err(ValError::new(ErrorTypeDefaults::ComplexType, self))
     }
-- 
2.43.0


From a09567254f2614bda67932738b98bd62292123d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 05/41] fix: report a literal or enum error for integers
 outside of the i64 range

The lookup failed with an integer parsing error instead of finding no match.
---
 src/validators/literal.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/validators/literal.rs b/src/validators/literal.rs
index 3da5e9d..93d4f61 100644
--- a/src/validators/literal.rs
+++ b/src/validators/literal.rs
@@ -114,9 +114,11 @@ impl<T: Debug> LiteralLookup<T> {
         }
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.exact_int() {
-                let int = either_int.into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some((input, &self.values[*id])));
+                // an integer outside of the i64 range cannot be one of the expected integers
+                if let Ok(int) = either_int.into_i64(py) {
+                    if let Some(id) = expected_ints.get(&int) {
+                        return Ok(Some((input, &self.values[*id])));
+                    }
                 }
             }
         }
@@ -192,9 +194,10 @@ impl<T: Debug> LiteralLookup<T> {
     ) -> ValResult<Option<&T>> {
         if let Some(expected_ints) = &self.expected_int {
             if let Ok(either_int) = input.validate_int(strict) {
-                let int = either_int.into_inner().into_i64(py)?;
-                if let Some(id) = expected_ints.get(&int) {
-                    return Ok(Some(&self.values[*id]));
+                if let Ok(int) = either_int.into_inner().into_i64(py) {
+                    if let Some(id) = expected_ints.get(&int) {
+                        return Ok(Some(&self.values[*id]));
+                    }
                 }
             }
         }
-- 
2.43.0


From 9bb68d2217fcee4afc0c226728d7ffafd4318e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 06/41] fix: refuse a variadic_item_index which is out of
 bounds instead of panicking

---
 src/serializers/type_serializers/tuple.rs | 4 ++++
 src/validators/tuple.rs                   | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/tuple.rs b/src/serializers/type_serializers/tuple.rs
index e6bc6d2..aee73de 100644
--- a/src/serializers/type_serializers/tuple.rs
+++ b/src/serializers/type_serializers/tuple.rs
@@ -6,6 +6,7 @@ use std::iter;
 
 use serde::ser::SerializeSeq;
 
+use crate::build_tools::py_schema_err;
 use crate::definitions::DefinitionsBuilder;
 use crate::serializers::extra::SerCheck;
 use crate::serializers::type_serializers::any::AnySerializer;
@@ -43,6 +44,9 @@ impl BuildSerializer for TupleSerializer {
         let mut serializer_names = serializers.iter().map(TypeSerializer::get_name).collect::<Vec<_>>();
         let variadic_item_index: Option<usize> = schema.get_as(intern!(py, "variadic_item_index"))?;
         if let Some(variadic_item_index) = variadic_item_index {
+            if variadic_item_index >= serializers.len() {
+                return py_schema_err!("'variadic_item_index' is out of bounds of 'items_schema'");
+            }
             serializer_names.insert(variadic_item_index + 1, "...");
         }
         let name = format!("tuple[{}]", serializer_names.join(", "));
diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index e49d6a9..a7dd9d3 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -4,7 +4,7 @@ use pyo3::intern;
 use pyo3::prelude::*;
 use pyo3::types::{PyDict, PyList, PyTuple};
 
-use crate::build_tools::is_strict;
+use crate::build_tools::{is_strict, py_schema_err};
 use crate::errors::{py_err_string, ErrorType, ErrorTypeDefaults, ValError, ValLineError, ValResult};
 use crate::input::ConsumeIterator;
 use crate::input::{BorrowInput, Input, ValidatedTuple};
@@ -39,8 +39,10 @@ impl BuildValidator for TupleValidator {
 
         let mut validator_names = validators.iter().map(Validator::get_name).collect::<Vec<_>>();
         let variadic_item_index: Option<usize> = schema.get_as(intern!(py, "variadic_item_index"))?;
-        // FIXME add friendly schema error if item out of bounds
         if let Some(variadic_item_index) = variadic_item_index {
+            if variadic_item_index >= validators.len() {
+                return py_schema_err!("'variadic_item_index' is out of bounds of 'items_schema'");
+            }
             validator_names.insert(variadic_item_index + 1, "...");
         }
         let name = format!("tuple[{}]", validator_names.join(", "));
-- 
2.43.0


From 0c795cb75e73f7f0984b449d22a61f9ebcaab869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 07/41] fix: only take integer enum values when validating an
 enum member as int

---
 src/input/input_python.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index 48c9a34..dc163c7 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -271,8 +271,9 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
                     decimal_as_int(self, &decimal.into_inner())
                 } else if let Ok(float) = self.extract::<f64>() {
                     float_as_int(self, float)
-                } else if let Some(enum_val) = maybe_as_enum(self) {
-                    Ok(EitherInt::Py(enum_val))
+                } else if let Some(enum_val) = maybe_as_enum(self).filter(|v| v.is_instance_of::<PyInt>()) {
+                    // force to an int to upcast to a pure python int
+                    EitherInt::upcast(&enum_val)
                 } else {
                     break 'lax;
                 }
-- 
2.43.0


From 7c47c4e10aff8d9d608321b47a45970d402b63e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 08/41] fix: release recursion state when the depth limit is
 hit

Otherwise later values in the same call were reported as recursive.
---
 src/recursion_guard.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/recursion_guard.rs b/src/recursion_guard.rs
index b1f07ed..8626a1f 100644
--- a/src/recursion_guard.rs
+++ b/src/recursion_guard.rs
@@ -35,6 +35,8 @@ impl<S: ContainsRecursionState> RecursionGuard<'_, S> {
                 return Err(RecursionError::Cyclic);
             }
             if state.incr_depth() {
+                // no guard is created, so nothing else would remove the id again
+                state.remove(obj_id, node_id);
                 return Err(RecursionError::Depth);
             }
             Ok(())
@@ -101,10 +103,13 @@ impl RecursionState {
         {
             debug_assert!(RECURSION_GUARD_LIMIT < 255);
         }
-        // use saturating_add as it's faster (since there's no error path)
-        // and the RECURSION_GUARD_LIMIT check will be hit before it overflows
-        self.depth = self.depth.saturating_add(1);
-        self.depth > RECURSION_GUARD_LIMIT
+        // depth must stay as it is when the limit is hit, there is no guard to decrease it again
+        if self.depth < RECURSION_GUARD_LIMIT {
+            self.depth += 1;
+            false
+        } else {
+            true
+        }
     }
 
     #[must_use]
-- 
2.43.0


From f5f507bc571781e30a6e860140d0d71ab8cad52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:54 +0000
Subject: [PATCH 09/41] fix: do not recurse without end when validating an
 invalid default

With on_error='default' and validate_default the default fell back to itself.
---
 src/validators/with_default.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index b5d945e..a9d515c 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -190,9 +190,14 @@ impl Validator for WithDefaultValidator {
                     stored_dft
                 };
                 if self.validate_default {
-                    match self.validate(py, dft.bind(py), state) {
+                    // use the inner validator, falling back to the default again would never end
+                    match self.validator.validate(py, dft.bind(py), state) {
                         Ok(v) => Ok(Some(v)),
                         Err(e) => {
+                            let e = match self.on_error {
+                                OnError::Omit => ValError::Omit,
+                                _ => e,
+                            };
                             if let Some(outer_loc) = outer_loc {
                                 Err(e.with_outer_location(outer_loc))
                             } else {
-- 
2.43.0


From 35d9c62ba2f3e425f35a033b55252bcbb9227a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:39 +0000
Subject: [PATCH 10/41] fix: make strings mode return plain strings for str
 subclasses

---
 src/input/input_string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input/input_string.rs b/src/input/input_string.rs
index 0ab4ad0..c71f2e2 100644
--- a/src/input/input_string.rs
+++ b/src/input/input_string.rs
@@ -107,7 +107,11 @@ impl<'py> Input<'py> for StringMapping<'py> {
         _coerce_numbers_to_str: bool,
     ) -> ValResult<ValidationMatch<EitherString<'_>>> {
         match self {
-            Self::String(s) => Ok(ValidationMatch::strict(s.clone().into())),
+            Self::String(s) => match s.downcast_exact::<PyString>() {
+                Ok(py_str) => Ok(ValidationMatch::strict(py_str.clone().into())),
+                // as for python input, subclasses of `str` become a plain string
+                Err(_) => Ok(ValidationMatch::strict(py_string_str(s)?.into())),
+            },
             Self::Mapping(_) => Err(ValError::new(ErrorTypeDefaults::StringType, self)),
         }
     }
-- 
2.43.0


From 7816974c3fb3a37a32a1272d6f1ee33529891dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:18 +0000
Subject: [PATCH 11/41] fix: report errors from looking up a typed-dict field

---
 src/validators/typed_dict.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/typed_dict.rs b/src/validators/typed_dict.rs
index eb4394e..57969d3 100644
--- a/src/validators/typed_dict.rs
+++ b/src/validators/typed_dict.rs
@@ -193,7 +193,7 @@ impl Validator for TypedDictValidator {
                     Ok(v) => v,
                     Err(ValError::LineErrors(line_errors)) => {
                         let field_loc: LocItem = field.name.clone().into();
-                        if partial_last_key.as_ref() == Some(&field_loc) {
+                        if partial_last_key.as_ref() != Some(&field_loc) {
                             for err in line_errors {
                                 errors.push(err.with_outer_location(field_loc.clone()));
                             }
-- 
2.43.0


From 3e6f1f280335741833cb30d861f2d5cae30cc402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:50 +0000
Subject: [PATCH 12/41] fix: collect errors of invalid argument defaults
 instead of stopping at the first

---
 src/validators/arguments.rs    | 18 +++++++++++++----
 src/validators/arguments_v3.rs | 35 ++++++++++++++++++++++++++--------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index 2ca3ba5..c41bd17 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -261,10 +261,20 @@ impl Validator for ArgumentsValidator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
-                        .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
-                    {
+                    let default_value =
+                        match parameter
+                            .validator
+                            .default_value(py, Some(parameter.name.as_str()), state)
+                        {
+                            Ok(default_value) => default_value,
+                            // Note: these errors already have the parameter name as their location
+                            Err(ValError::LineErrors(line_errors)) => {
+                                errors.extend(line_errors);
+                                continue;
+                            }
+                            Err(err) => return Err(err),
+                        };
+                    if let Some(value) = default_value {
                         if let Some(ref kwarg_key) = parameter.kwarg_key {
                             output_kwargs.set_item(kwarg_key, value)?;
                         } else {
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 22c9c6d..9e1385e 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -385,11 +385,20 @@ impl ArgumentsV3Validator {
                 match parameter.mode {
                     // ... fallback to the default value (and error if no default):
                     ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword | ParameterMode::KeywordOnly => {
-                        if let Some(value) =
-                            parameter
+                        let default_value =
+                            match parameter
                                 .validator
-                                .default_value(py, Some(parameter.name.as_str()), state)?
-                        {
+                                .default_value(py, Some(parameter.name.as_str()), state)
+                            {
+                                Ok(default_value) => default_value,
+                                // Note: these errors already have the parameter name as their location
+                                Err(ValError::LineErrors(line_errors)) => {
+                                    errors.extend(line_errors);
+                                    continue;
+                                }
+                                Err(err) => return Err(err),
+                            };
+                        if let Some(value) = default_value {
                             if matches!(
                                 parameter.mode,
                                 ParameterMode::PositionalOnly | ParameterMode::PositionalOrKeyword
@@ -585,10 +594,20 @@ impl ArgumentsV3Validator {
                     }
                 }
                 (None, None) => {
-                    if let Some(value) = parameter
-                        .validator
-                        .default_value(py, Some(parameter.name.as_str()), state)?
-                    {
+                    let default_value =
+                        match parameter
+                            .validator
+                            .default_value(py, Some(parameter.name.as_str()), state)
+                        {
+                            Ok(default_value) => default_value,
+                            // Note: these errors already have the parameter name as their location
+                            Err(ValError::LineErrors(line_errors)) => {
+                                errors.extend(line_errors);
+                                continue;
+                            }
+                            Err(err) => return Err(err),
+                        };
+                    if let Some(value) = default_value {
                         if parameter.mode == ParameterMode::PositionalOnly {
                             output_args.push(value);
                         } else {
-- 
2.43.0


From 00ca92454c1f93261ddfa1ac7776741ea198f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:09 +0000
Subject: [PATCH 13/41] fix: raise instead of panicking when unpacked kwargs
 are not a dict

---
 src/validators/arguments.rs    | 2 +-
 src/validators/arguments_v3.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/validators/arguments.rs b/src/validators/arguments.rs
index c41bd17..b71b5f0 100644
--- a/src/validators/arguments.rs
+++ b/src/validators/arguments.rs
@@ -394,7 +394,7 @@ impl Validator for ArgumentsValidator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py).map_err(PyErr::from)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
diff --git a/src/validators/arguments_v3.rs b/src/validators/arguments_v3.rs
index 9e1385e..3540a5c 100644
--- a/src/validators/arguments_v3.rs
+++ b/src/validators/arguments_v3.rs
@@ -367,7 +367,8 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, dict_value.borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs
+                                    .update(value.downcast_bound::<PyDict>(py).map_err(PyErr::from)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -427,7 +428,8 @@ impl ArgumentsV3Validator {
                     ParameterMode::VarKwargsUnpackedTypedDict => {
                         match parameter.validator.validate(py, PyDict::new(py).borrow_input(), state) {
                             Ok(value) => {
-                                output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                                output_kwargs
+                                    .update(value.downcast_bound::<PyDict>(py).map_err(PyErr::from)?.as_mapping())?;
                             }
                             Err(ValError::LineErrors(line_errors)) => {
                                 errors.extend(
@@ -757,7 +759,7 @@ impl ArgumentsV3Validator {
                 .validate(py, remaining_kwargs.as_any(), state)
             {
                 Ok(value) => {
-                    output_kwargs.update(value.downcast_bound::<PyDict>(py).unwrap().as_mapping())?;
+                    output_kwargs.update(value.downcast_bound::<PyDict>(py).map_err(PyErr::from)?.as_mapping())?;
                 }
                 Err(ValError::LineErrors(line_errors)) => {
                     errors.extend(line_errors);
-- 
2.43.0


From 35443c2ba6ec0e5d6a2108e58f4875e59c9183c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 14/41] fix: record root as set when assigning to a root model

---
 src/validators/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index f2c3658..fc864a5 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -205,6 +205,9 @@ impl Validator for ModelValidator {
                 let state = &mut state.rebind_extra(|extra| extra.field_name = Some(PyString::new(py, ROOT_FIELD)));
                 let output = self.validator.validate(py, field_value, state)?;
 
+                if let Ok(fields_set) = model.getattr(intern!(py, DUNDER_FIELDS_SET_KEY)) {
+                    fields_set.downcast::<PySet>()?.add(intern!(py, ROOT_FIELD))?;
+                }
                 force_setattr(py, model, intern!(py, ROOT_FIELD), output)?;
                 Ok(model.into_py_any(py)?)
             };
-- 
2.43.0


From 53ab0836094a74ec25a5ca98e9bc2d175efa2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 15/41] fix: keep partial validation and exactness state across
 union choices

---
 src/validators/lax_or_strict.rs |  3 +++
 src/validators/union.rs         | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index bc35465..7e6cf4d 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -68,9 +68,12 @@ impl Validator for LaxOrStrictValidator {
             // horrible edge case: if doing smart union validation, we need to try the strict validator
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
+                let allow_partial = state.allow_partial;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
+                // the strict validator might have disabled partial validation
+                state.allow_partial = allow_partial;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
diff --git a/src/validators/union.rs b/src/validators/union.rs
index f293a99..07e1386 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -107,6 +107,7 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let old_exactness = state.exactness;
         let old_fields_set_count = state.fields_set_count;
+        let allow_partial = state.allow_partial;
 
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
 
@@ -115,6 +116,8 @@ impl UnionValidator {
         for (choice, label) in &self.choices {
             state.exactness = Some(Exactness::Exact);
             state.fields_set_count = None;
+            // a previous choice might have disabled partial validation
+            state.allow_partial = allow_partial;
             let result = choice.validate(py, input, state);
             match result {
                 Ok(new_success) => match (state.exactness, state.fields_set_count) {
@@ -161,7 +164,11 @@ impl UnionValidator {
                         errors.push(choice, label.as_deref(), lines);
                     }
                 }
-                otherwise => return otherwise,
+                otherwise => {
+                    state.exactness = old_exactness;
+                    state.fields_set_count = old_fields_set_count;
+                    return otherwise;
+                }
             }
         }
 
@@ -188,8 +195,11 @@ impl UnionValidator {
         state: &mut ValidationState<'_, 'py>,
     ) -> ValResult<PyObject> {
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
+        let allow_partial = state.allow_partial;
 
         for (validator, label) in &self.choices {
+            // a previous choice might have disabled partial validation
+            state.allow_partial = allow_partial;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
                 otherwise => return otherwise,
-- 
2.43.0


From 6ce48b11ebbe7b84824ebd8fb61d3ee0af175f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:11 +0000
Subject: [PATCH 16/41] fix: count defaults of missing items towards a tuple's
 max_length

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index a7dd9d3..d38a5eb 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -90,7 +90,7 @@ impl TupleValidator {
                 None => {
                     let index = collection_iter.next_calls() - 1;
                     if let Some(value) = validator.default_value(py, Some(index), state)? {
-                        output.push(value);
+                        self.push_output_item(input, output, value, actual_length)?;
                     } else {
                         errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index));
                     }
-- 
2.43.0


From 13feaa9db2557ff1176a4d528dcbf9c07840bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:12 +0000
Subject: [PATCH 17/41] fix: pass by_alias, by_name and the fields set count
 through wrap handlers

---
 src/validators/function.rs  |  4 +++-
 src/validators/generator.rs | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/validators/function.rs b/src/validators/function.rs
index e65ff79..ddb0960 100644
--- a/src/validators/function.rs
+++ b/src/validators/function.rs
@@ -380,7 +380,9 @@ impl Validator for FunctionWrapValidator {
         let handler = Bound::new(py, handler)?;
         #[allow(clippy::used_underscore_items)]
         let result = self._validate(handler.as_any(), py, input, state);
-        state.exactness = handler.borrow_mut().validator.exactness;
+        let handler = handler.borrow();
+        state.exactness = handler.validator.exactness;
+        state.fields_set_count = handler.validator.fields_set_count;
         result
     }
 
diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index 12d76b3..fe8ed19 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -225,10 +225,13 @@ pub struct InternalValidator {
     self_instance: Option<PyObject>,
     recursion_guard: RecursionState,
     pub(crate) exactness: Option<Exactness>,
+    pub(crate) fields_set_count: Option<usize>,
     validation_mode: InputType,
     hide_input_in_errors: bool,
     validation_error_cause: bool,
     cache_str: jiter::StringCacheMode,
+    by_alias: Option<bool>,
+    by_name: Option<bool>,
 }
 
 impl fmt::Debug for InternalValidator {
@@ -256,10 +259,13 @@ impl InternalValidator {
             self_instance: extra.self_instance.map(|d| d.clone().unbind()),
             recursion_guard: state.recursion_guard.clone(),
             exactness: state.exactness,
+            fields_set_count: state.fields_set_count,
             validation_mode: extra.input_type,
             hide_input_in_errors,
             validation_error_cause,
             cache_str: extra.cache_str,
+            by_alias: extra.by_alias,
+            by_name: extra.by_name,
         }
     }
 
@@ -280,11 +286,12 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self
             .validator
             .validate_assignment(py, model, field_name, field_value, &mut state)
@@ -300,6 +307,7 @@ impl InternalValidator {
                 )
             });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 
@@ -318,11 +326,12 @@ impl InternalValidator {
             context: self.context.as_ref().map(|data| data.bind(py)),
             self_instance: self.self_instance.as_ref().map(|data| data.bind(py)),
             cache_str: self.cache_str,
-            by_alias: None,
-            by_name: None,
+            by_alias: self.by_alias,
+            by_name: self.by_name,
         };
         let mut state = ValidationState::new(extra, &mut self.recursion_guard, false.into());
         state.exactness = self.exactness;
+        state.fields_set_count = self.fields_set_count;
         let result = self.validator.validate(py, input, &mut state).map_err(|e| {
             ValidationError::from_val_error(
                 py,
@@ -335,6 +344,7 @@ impl InternalValidator {
             )
         });
         self.exactness = state.exactness;
+        self.fields_set_count = state.fields_set_count;
         result
     }
 }
-- 
2.43.0


From e7d47b0a1fa9374ebe438dd4c1f9407622a79a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:50 +0000
Subject: [PATCH 18/41] fix: report the right index for errors in the items
 after a variadic tuple item

---
 src/validators/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index d38a5eb..3e690fa 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -172,7 +172,7 @@ impl TupleValidator {
 
                 // Iterate over all remaining collection items, validating as items "leave" the buffer
                 for (buffer_item_index, input_item) in collection_iter {
-                    index = buffer_item_index;
+                    index = buffer_item_index + 1;
                     // This `unwrap` is safe because you can only get here
                     // if there were at least `n_tail_validators` (> 0) items in the iterator
                     let buffered_item = tail_buffer.pop_front().unwrap();
-- 
2.43.0


From 4eaabc78444e499c5bd7fa440e28b497bc85ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:50 +0000
Subject: [PATCH 19/41] fix: report the index of the failing item when
 iterating over a tuple input fails

---
 src/validators/tuple.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 3e690fa..26e8f97 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -350,9 +350,11 @@ where
                         if iteration_error.is_some() {
                             return None;
                         }
-                        index += 1;
                         match iterator.next() {
-                            Some(Ok(item)) => Some(item),
+                            Some(Ok(item)) => {
+                                index += 1;
+                                Some(item)
+                            }
                             Some(Err(e)) => {
                                 *iteration_error = Some(ValError::new_with_loc(
                                     ErrorType::IterationError {
-- 
2.43.0


From 03c13149153d5d1e1a02e68312eaf672ee2283f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:00 +0000
Subject: [PATCH 20/41] fix: collect errors of invalid tuple item defaults
 instead of stopping at the first

---
 src/validators/tuple.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/validators/tuple.rs b/src/validators/tuple.rs
index 26e8f97..37e7719 100644
--- a/src/validators/tuple.rs
+++ b/src/validators/tuple.rs
@@ -89,10 +89,12 @@ impl TupleValidator {
                 },
                 None => {
                     let index = collection_iter.next_calls() - 1;
-                    if let Some(value) = validator.default_value(py, Some(index), state)? {
-                        self.push_output_item(input, output, value, actual_length)?;
-                    } else {
-                        errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index));
+                    match validator.default_value(py, Some(index), state) {
+                        Ok(Some(value)) => self.push_output_item(input, output, value, actual_length)?,
+                        Ok(None) => errors.push(ValLineError::new_with_loc(ErrorTypeDefaults::Missing, input, index)),
+                        // the default value already has the index as its outer location
+                        Err(ValError::LineErrors(line_errors)) => errors.extend(line_errors),
+                        Err(err) => return Err(err),
                     }
                 }
             }
-- 
2.43.0


From e32f866588516c89bd534573db99803f64482232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:09 +0000
Subject: [PATCH 21/41] fix: do not count what failed choices matched towards
 the result of an outer union

---
 src/validators/lax_or_strict.rs | 3 +++
 src/validators/union.rs         | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/validators/lax_or_strict.rs b/src/validators/lax_or_strict.rs
index 7e6cf4d..5833719 100644
--- a/src/validators/lax_or_strict.rs
+++ b/src/validators/lax_or_strict.rs
@@ -69,11 +69,14 @@ impl Validator for LaxOrStrictValidator {
             // anyway and prefer that if it succeeds
             if state.exactness.is_some() {
                 let allow_partial = state.allow_partial;
+                let fields_set_count = state.fields_set_count;
                 if let Ok(strict_result) = self.strict_validator.validate(py, input, state) {
                     return Ok(strict_result);
                 }
                 // the strict validator might have disabled partial validation
                 state.allow_partial = allow_partial;
+                // the fields which the failed strict validator has set do not count
+                state.fields_set_count = fields_set_count;
                 // this is now known to be not strict
                 state.floor_exactness(Exactness::Lax);
             }
diff --git a/src/validators/union.rs b/src/validators/union.rs
index 07e1386..01cb715 100644
--- a/src/validators/union.rs
+++ b/src/validators/union.rs
@@ -196,10 +196,15 @@ impl UnionValidator {
     ) -> ValResult<PyObject> {
         let mut errors = MaybeErrors::new(self.custom_error.as_ref());
         let allow_partial = state.allow_partial;
+        let old_exactness = state.exactness;
+        let old_fields_set_count = state.fields_set_count;
 
         for (validator, label) in &self.choices {
             // a previous choice might have disabled partial validation
             state.allow_partial = allow_partial;
+            // what a previous choice matched before it failed does not count
+            state.exactness = old_exactness;
+            state.fields_set_count = old_fields_set_count;
             match validator.validate(py, input, state) {
                 Err(ValError::LineErrors(lines)) => errors.push(validator, label.as_deref(), lines),
                 otherwise => return otherwise,
-- 
2.43.0


From 25f842bea8db4eb4a8dedc35f221fd56a2834e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:45 +0000
Subject: [PATCH 22/41] fix: do not take the enum member None for unknown JSON
 and string values

---
 src/validators/enum_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/enum_.rs b/src/validators/enum_.rs
index 0e34cb1..e1c3b72 100644
--- a/src/validators/enum_.rs
+++ b/src/validators/enum_.rs
@@ -122,7 +122,7 @@ impl<T: EnumValidateValue> Validator for EnumValidator<T> {
 
         if let Some(v) = T::validate_value(py, input, &self.lookup, strict)? {
             return Ok(v);
-        } else if let Ok(res) = class.as_unbound().call1(py, (input.as_python(),)) {
+        } else if let Some(Ok(res)) = input.as_python().map(|py_input| class.as_unbound().call1(py, (py_input,))) {
             return Ok(res);
         } else if let Some(ref missing) = self.missing {
             let enum_value = missing.bind(py).call1((input.to_object(py)?,)).map_err(|_| {
-- 
2.43.0


From 550e982ac151566e9b7bdf391c0c776b2ffec94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 23/41] fix: pass an empty dict, not an empty tuple, to a
 default factory when there is no data

---
 src/validators/with_default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index a9d515c..a7b4429 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -55,7 +55,7 @@ impl DefaultType {
                     if let Some(data) = validated_data {
                         default_factory.call1(py, (data,))
                     } else {
-                        default_factory.call1(py, ({},))
+                        default_factory.call1(py, (PyDict::new(py),))
                     }
                 } else {
                     default_factory.call0(py)
-- 
2.43.0


From 1b214784c1fc57bf85df17a2e2e33eb8d56d3d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 24/41] fix: do not let dataclass fields outside __init__ or
 keyword-only fields consume a positional argument

---
 src/validators/dataclass.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/validators/dataclass.rs b/src/validators/dataclass.rs
index c74d789..ac618bc 100644
--- a/src/validators/dataclass.rs
+++ b/src/validators/dataclass.rs
@@ -89,7 +89,8 @@ impl BuildValidator for DataclassArgsValidator {
             }
 
             let kw_only = field.get_as(intern!(py, "kw_only"))?.unwrap_or(true);
-            if !kw_only {
+            let init = field.get_as(intern!(py, "init"))?.unwrap_or(true);
+            if init && !kw_only {
                 positional_count += 1;
             }
 
@@ -102,7 +103,7 @@ impl BuildValidator for DataclassArgsValidator {
                 name_py: name_py.into(),
                 lookup_key_collection,
                 validator,
-                init: field.get_as(intern!(py, "init"))?.unwrap_or(true),
+                init,
                 init_only: field.get_as(intern!(py, "init_only"))?.unwrap_or(false),
                 frozen: field.get_as::<bool>(intern!(py, "frozen"))?.unwrap_or(false),
             });
@@ -175,7 +176,9 @@ impl Validator for DataclassArgsValidator {
         }
 
         // go through fields getting the value from args or kwargs and validating it
-        for (index, field) in self.fields.iter().enumerate() {
+        // only fields which take part in `__init__` and aren't keyword only consume a positional argument
+        let mut next_position: usize = 0;
+        for field in &self.fields {
             if !field.init {
                 match field.validator.default_value(py, Some(field.name.as_str()), state) {
                     Ok(Some(value)) => {
@@ -194,9 +197,11 @@ impl Validator for DataclassArgsValidator {
                 continue;
             }
 
+            let index = next_position;
             let mut pos_value = None;
-            if let Some(args) = args.args() {
-                if !field.kw_only {
+            if !field.kw_only {
+                next_position += 1;
+                if let Some(args) = args.args() {
                     pos_value = args.get_item(index);
                 }
             }
-- 
2.43.0


From e06793861eb23a99ce0405eda499dd2b295e7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 25/41] fix: give a revalidated model its own fields-set
 instead of sharing the original's

---
 src/validators/model.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/validators/model.rs b/src/validators/model.rs
index fc864a5..32866eb 100644
--- a/src/validators/model.rs
+++ b/src/validators/model.rs
@@ -320,8 +320,15 @@ impl ModelValidator {
 
             let (model_dict, model_extra, val_fields_set): (Bound<PyAny>, Bound<PyAny>, Bound<PyAny>) =
                 output.extract(py)?;
-            let fields_set = existing_fields_set.unwrap_or(&val_fields_set);
-            set_model_attrs(&instance, &model_dict, &model_extra, fields_set)?;
+            let fields_set = match existing_fields_set {
+                // the revalidated instance needs its own set: the original may be changed later on
+                Some(fields_set) if fields_set.downcast::<PySet>().is_ok() => {
+                    fields_set.call_method0(intern!(py, "copy"))?
+                }
+                Some(fields_set) => fields_set.clone(),
+                None => val_fields_set,
+            };
+            set_model_attrs(&instance, &model_dict, &model_extra, &fields_set)?;
         }
         self.call_post_init(py, instance, input, state.extra())
     }
-- 
2.43.0


From 226157f689ef4e8ea88138db5b90acd80c886cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:19 +0000
Subject: [PATCH 26/41] fix: let validation errors with custom error types be
 unpickled

---
 src/errors/validation_exception.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/errors/validation_exception.rs b/src/errors/validation_exception.rs
index 16e89eb..48a9475 100644
--- a/src/errors/validation_exception.rs
+++ b/src/errors/validation_exception.rs
@@ -393,9 +393,24 @@ impl ValidationError {
         let py = slf.py();
         let callable = slf.getattr("from_exception_data")?;
         let borrow = slf.try_borrow()?;
+        let line_errors = borrow.errors(py, include_url_env(py), true, true)?.into_bound(py);
+        for (line_error, error_dict) in borrow.line_errors.iter().zip(&line_errors) {
+            if let ErrorType::CustomError {
+                error_type,
+                message_template,
+                context,
+            } = &line_error.error_type
+            {
+                // the type of a custom error is not enough to recreate it
+                let custom_error =
+                    py.get_type::<PydanticCustomError>()
+                        .call1((error_type, message_template, context.as_ref()))?;
+                error_dict.set_item("type", custom_error)?;
+            }
+        }
         let args = (
             &borrow.title,
-            borrow.errors(py, include_url_env(py), true, true)?,
+            line_errors,
             borrow.input_type,
             borrow.hide_input,
         )
-- 
2.43.0


From 444f60424ed531ee6809e3ccebd4da69dfd4911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:46 +0000
Subject: [PATCH 27/41] fix: do not validate defaults as if they were part of a
 partial input

---
 src/validators/with_default.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/validators/with_default.rs b/src/validators/with_default.rs
index a7b4429..aecec53 100644
--- a/src/validators/with_default.rs
+++ b/src/validators/with_default.rs
@@ -191,7 +191,12 @@ impl Validator for WithDefaultValidator {
                 };
                 if self.validate_default {
                     // use the inner validator, falling back to the default again would never end
-                    match self.validator.validate(py, dft.bind(py), state) {
+                    // the default is not part of the (partial) input
+                    let allow_partial = state.allow_partial;
+                    state.allow_partial = false.into();
+                    let result = self.validator.validate(py, dft.bind(py), state);
+                    state.allow_partial = allow_partial;
+                    match result {
                         Ok(v) => Ok(Some(v)),
                         Err(e) => {
                             let e = match self.on_error {
-- 
2.43.0


From 7d782d3631e969b994b99939f482de71b3f6ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 28/41] fix: keep include/exclude when a function serializer is
 not used

---
 src/serializers/type_serializers/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializers/type_serializers/function.rs b/src/serializers/type_serializers/function.rs
index 3c66583..c21744f 100644
--- a/src/serializers/type_serializers/function.rs
+++ b/src/serializers/type_serializers/function.rs
@@ -224,7 +224,7 @@ macro_rules! function_type_serializer {
                     Ok((true, v)) => self.return_serializer.to_python(v.bind(py), None, None, extra),
                     Ok((false, v)) => self
                         .get_fallback_serializer()
-                        .to_python(v.bind(py), None, None, extra),
+                        .to_python(v.bind(py), include, exclude, extra),
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra)?;
                         infer_to_python(value, include, exclude, extra)
@@ -266,7 +266,7 @@ macro_rules! function_type_serializer {
                         .serde_serialize(v.bind(py), serializer, None, None, extra),
                     Ok((false, v)) => {
                         self.get_fallback_serializer()
-                            .serde_serialize(v.bind(py), serializer, None, None, extra)
+                            .serde_serialize(v.bind(py), serializer, include, exclude, extra)
                     }
                     Err(err) => {
                         on_error(py, err, &self.function_name, extra).map_err(py_err_se_err)?;
-- 
2.43.0


From 3a9f153c78b40ec7d97c61494b6bb07f83b06dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 29/41] fix: use the extras serializer in to_json, as to_python
 does

---
 src/serializers/fields.rs | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index b89468d..8432944 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -271,8 +271,14 @@ impl GeneralFieldsSerializer {
                     }
                 } else if self.mode == FieldsMode::TypedDictAllow {
                     let output_key = infer_json_key(&key, &field_extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), &field_extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        &field_extra,
+                    )?;
                 }
                 // no error case here since unions (which need the error case) use `to_python(..., mode='json')`
             }
@@ -280,6 +286,25 @@ impl GeneralFieldsSerializer {
         Ok(map)
     }
 
+    /// serialize an item which is not a field, using `extra_serializer` if there is one
+    fn serialize_extra_entry<S: serde::ser::Serializer>(
+        &self,
+        map: &mut S::SerializeMap,
+        key: &str,
+        value: &Bound<'_, PyAny>,
+        include: Option<&Bound<'_, PyAny>>,
+        exclude: Option<&Bound<'_, PyAny>>,
+        extra: &Extra,
+    ) -> Result<(), S::Error> {
+        match &self.extra_serializer {
+            Some(serializer) => map.serialize_entry(
+                key,
+                &PydanticSerializer::new(value, serializer, include, exclude, extra),
+            ),
+            None => map.serialize_entry(key, &SerializeInfer::new(value, include, exclude, extra)),
+        }
+    }
+
     pub(crate) fn add_computed_fields_python(
         &self,
         model: Option<&Bound<'_, PyAny>>,
@@ -444,8 +469,14 @@ impl TypeSerializer for GeneralFieldsSerializer {
                 let filter = self.filter.key_filter(&key, include, exclude).map_err(py_err_se_err)?;
                 if let Some((next_include, next_exclude)) = filter {
                     let output_key = infer_json_key(&key, extra).map_err(py_err_se_err)?;
-                    let s = SerializeInfer::new(&value, next_include.as_ref(), next_exclude.as_ref(), extra);
-                    map.serialize_entry(&output_key, &s)?;
+                    self.serialize_extra_entry::<S>(
+                        &mut map,
+                        &output_key,
+                        &value,
+                        next_include.as_ref(),
+                        next_exclude.as_ref(),
+                        extra,
+                    )?;
                 }
             }
         }
-- 
2.43.0


From d99eb6ea81eaa561d097924a15e5f8f3942dfdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 30/41] fix: decide exclude_none of computed fields on the
 value, as to_json does

---
 src/serializers/computed_fields.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/computed_fields.rs b/src/serializers/computed_fields.rs
index 6e6786d..8f70d69 100644
--- a/src/serializers/computed_fields.rs
+++ b/src/serializers/computed_fields.rs
@@ -158,13 +158,13 @@ impl ComputedField {
 
         if let Some((next_include, next_exclude)) = filter.key_filter(property_name_py, include, exclude)? {
             let next_value = model.getattr(property_name_py)?;
+            if extra.exclude_none && next_value.is_none() {
+                return Ok(());
+            }
 
             let value = self
                 .serializer
                 .to_python(&next_value, next_include.as_ref(), next_exclude.as_ref(), extra)?;
-            if extra.exclude_none && value.is_none(py) {
-                return Ok(());
-            }
             let key = match extra.serialize_by_alias_or(self.serialize_by_alias) {
                 true => self.alias_py.bind(py),
                 false => property_name_py,
-- 
2.43.0


From d47e6c366842222ba3243b3e6863a417e7ecd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 31/41] fix: give the serializers of computed fields the model
 in to_json, as to_python does

---
 src/serializers/fields.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serializers/fields.rs b/src/serializers/fields.rs
index 8432944..cfcec05 100644
--- a/src/serializers/fields.rs
+++ b/src/serializers/fields.rs
@@ -331,8 +331,9 @@ impl GeneralFieldsSerializer {
         extra: &Extra,
     ) -> Result<(), S::Error> {
         if let Some(ref computed_fields) = self.computed_fields {
-            if let Some(model) = model {
-                computed_fields.serde_serialize::<S>(model, map, &self.filter, include, exclude, extra)?;
+            if let Some(model_value) = model {
+                let cf_extra = Extra { model, ..*extra };
+                computed_fields.serde_serialize::<S>(model_value, map, &self.filter, include, exclude, &cf_extra)?;
             }
         }
         Ok(())
-- 
2.43.0


From acbcd776cbf4775cf651b28221b456e81ff4336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 32/41] fix: use the json branch of json-or-python serializers
 in to_python(mode='json')

---
 src/serializers/type_serializers/json_or_python.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializers/type_serializers/json_or_python.rs b/src/serializers/type_serializers/json_or_python.rs
index 0e2de33..0b3f156 100644
--- a/src/serializers/type_serializers/json_or_python.rs
+++ b/src/serializers/type_serializers/json_or_python.rs
@@ -55,7 +55,11 @@ impl TypeSerializer for JsonOrPythonSerializer {
         exclude: Option<&Bound<'_, PyAny>>,
         extra: &Extra,
     ) -> PyResult<PyObject> {
-        self.python.to_python(value, include, exclude, extra)
+        if extra.mode.is_json() {
+            self.json.to_python(value, include, exclude, extra)
+        } else {
+            self.python.to_python(value, include, exclude, extra)
+        }
     }
 
     fn json_key<'a>(&self, key: &'a Bound<'_, PyAny>, extra: &Extra) -> PyResult<Cow<'a, str>> {
-- 
2.43.0


From 679b1fdd7087f525494ae99c1304d6b6c697533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 33/41] fix: do not wrap out-of-range indices in
 include/exclude

---
 src/serializers/filter.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index 65ec406..cae7f98 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -16,21 +16,15 @@ pub(crate) struct SchemaFilter<T> {
 }
 
 fn map_negative_index<'py>(value: &Bound<'py, PyAny>, len: Option<usize>) -> PyResult<Bound<'py, PyAny>> {
-    let py = value.py();
+    // anything which cannot be compared to an int, e.g. `'__all__'`, is not an index
+    if !value.lt(0).unwrap_or(false) {
+        return Ok(value.clone());
+    }
     match len {
-        Some(len) => Ok(value
-            .call_method1(intern!(py, "__mod__"), (len,))
-            .unwrap_or_else(|_| value.clone())),
-        None => {
-            // check that it's not negative
-            if value.lt(0).unwrap_or(false) {
-                Err(PyValueError::new_err(
-                    "Negative indices cannot be used to exclude items on unsized iterables",
-                ))
-            } else {
-                Ok(value.clone())
-            }
-        }
+        Some(len) => value.add(len),
+        None => Err(PyValueError::new_err(
+            "Negative indices cannot be used to exclude items on unsized iterables",
+        )),
     }
 }
 
-- 
2.43.0


From a94f0b5571d7cf1478472dabbe1657378f3154c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:48 +0000
Subject: [PATCH 34/41] fix: a nested call-time exclude does not bring back
 items excluded by the schema

---
 src/serializers/filter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/serializers/filter.rs b/src/serializers/filter.rs
index cae7f98..ffbc0e3 100644
--- a/src/serializers/filter.rs
+++ b/src/serializers/filter.rs
@@ -219,10 +219,8 @@ trait FilterLogic<T: Eq + Copy> {
             }
         }
 
-        if next_exclude.is_some() {
+        if self.default_filter(int_key) {
             Ok(Some((None, next_exclude)))
-        } else if self.default_filter(int_key) {
-            Ok(Some((None, None)))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 8a0a0a6704ab6cd2b3ebca602b2da6ca9a6fc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:58 +0000
Subject: [PATCH 35/41] fix: apply include/exclude to the items of a set in
 python output too

infer_to_python dropped the filters for sets and frozensets while
infer_serialize and the set serializers pass them on, so to_python(mode='json')
and to_json disagreed.
---
 src/serializers/infer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serializers/infer.rs b/src/serializers/infer.rs
index 33f53b2..f4e4d1a 100644
--- a/src/serializers/infer.rs
+++ b/src/serializers/infer.rs
@@ -64,7 +64,7 @@ pub(crate) fn infer_to_python_known(
             value
                 .downcast::<$t>()?
                 .iter()
-                .map(|v| infer_to_python(&v, None, None, extra))
+                .map(|v| infer_to_python(&v, include, exclude, extra))
                 .collect::<PyResult<Vec<PyObject>>>()?
         };
     }
-- 
2.43.0


From 996ee490419690172cc2a12e623716376e173f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 36/41] fix: use the config of a typed dict schema when
 serializing, as validation does

---
 src/serializers/type_serializers/typed_dict.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serializers/type_serializers/typed_dict.rs b/src/serializers/type_serializers/typed_dict.rs
index d93a885..26f123d 100644
--- a/src/serializers/type_serializers/typed_dict.rs
+++ b/src/serializers/type_serializers/typed_dict.rs
@@ -24,6 +24,10 @@ impl BuildSerializer for TypedDictBuilder {
     ) -> PyResult<CombinedSerializer> {
         let py = schema.py();
 
+        // use the config of this TypedDict where it has one, as validation does
+        let own_config: Option<Bound<'_, PyDict>> = schema.get_as(intern!(py, "config"))?;
+        let config = own_config.as_ref().or(config);
+
         let total =
             schema_or_config(schema, config, intern!(py, "total"), intern!(py, "typed_dict_total"))?.unwrap_or(true);
 
-- 
2.43.0


From 804e192e0616f3862ef93431c64f134e8ec9f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:41 +0000
Subject: [PATCH 37/41] fix: enforce max_length of generator schemas without an
 items schema

---
 src/validators/generator.rs | 54 ++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/validators/generator.rs b/src/validators/generator.rs
index fe8ed19..f1f95ac 100644
--- a/src/validators/generator.rs
+++ b/src/validators/generator.rs
@@ -124,36 +124,36 @@ impl ValidatorIterator {
         macro_rules! next {
             ($iter:ident) => {
                 match $iter.next(py)? {
-                    Some((next, index)) => match validator {
-                        Some(validator) => {
-                            if let Some(max_length) = max_length {
-                                if index >= max_length {
-                                    let val_error = ValError::new_custom_input(
-                                        ErrorType::TooLong {
-                                            field_type: "Generator".to_string(),
-                                            max_length,
-                                            actual_length: None,
-                                            context: None,
-                                        },
-                                        $iter.input_as_error_value(py),
-                                    );
-                                    return Err(ValidationError::from_val_error(
-                                        py,
-                                        "ValidatorIterator".into_pyobject(py)?.into(),
-                                        InputType::Python,
-                                        val_error,
-                                        None,
-                                        hide_input_in_errors,
-                                        validation_error_cause,
-                                    ));
-                                }
+                    Some((next, index)) => {
+                        if let Some(max_length) = max_length {
+                            if index >= max_length {
+                                let val_error = ValError::new_custom_input(
+                                    ErrorType::TooLong {
+                                        field_type: "Generator".to_string(),
+                                        max_length,
+                                        actual_length: None,
+                                        context: None,
+                                    },
+                                    $iter.input_as_error_value(py),
+                                );
+                                return Err(ValidationError::from_val_error(
+                                    py,
+                                    "ValidatorIterator".into_pyobject(py)?.into(),
+                                    InputType::Python,
+                                    val_error,
+                                    None,
+                                    hide_input_in_errors,
+                                    validation_error_cause,
+                                ));
                             }
-                            validator
+                        }
+                        match validator {
+                            Some(validator) => validator
                                 .validate(py, next.borrow_input(), Some(index.into()))
-                                .map(Some)
+                                .map(Some),
+                            None => Ok(Some(next.into_pyobject(py)?.unbind())),
                         }
-                        None => Ok(Some(next.into_pyobject(py)?.unbind())),
-                    },
+                    }
                     None => {
                         if let Some(min_length) = min_length {
                             if $iter.index() < min_length {
-- 
2.43.0


From 30a0ef0329ddf0cfa79f3db87862e6e26a630bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 38/41] fix: open the input of a generator schema once and
 report a failing __iter__

---
 src/input/input_python.rs |  7 ++-----
 src/input/return_enums.rs | 10 ++++++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/input/input_python.rs b/src/input/input_python.rs
index dc163c7..58f509e 100644
--- a/src/input/input_python.rs
+++ b/src/input/input_python.rs
@@ -488,11 +488,8 @@ impl<'py> Input<'py> for Bound<'py, PyAny> {
     }
 
     fn validate_iter(&self) -> ValResult<GenericIterator<'static>> {
-        if self.try_iter().is_ok() {
-            Ok(self.into())
-        } else {
-            Err(ValError::new(ErrorTypeDefaults::IterableType, self))
-        }
+        self.try_into()
+            .map_err(|_| ValError::new(ErrorTypeDefaults::IterableType, self))
     }
 
     fn validate_date(&self, strict: bool) -> ValResult<ValidationMatch<EitherDate<'py>>> {
diff --git a/src/input/return_enums.rs b/src/input/return_enums.rs
index 6de9c30..e6511fc 100644
--- a/src/input/return_enums.rs
+++ b/src/input/return_enums.rs
@@ -396,14 +396,16 @@ impl<'data> From<JsonArray<'data>> for GenericIterator<'data> {
     }
 }
 
-impl From<&Bound<'_, PyAny>> for GenericIterator<'_> {
-    fn from(obj: &Bound<'_, PyAny>) -> Self {
+impl TryFrom<&Bound<'_, PyAny>> for GenericIterator<'_> {
+    type Error = PyErr;
+
+    fn try_from(obj: &Bound<'_, PyAny>) -> PyResult<Self> {
         let py_iter = GenericPyIterator {
             obj: obj.clone().into(),
-            iter: obj.try_iter().unwrap().into(),
+            iter: obj.try_iter()?.into(),
             index: 0,
         };
-        Self::PyIterator(py_iter)
+        Ok(Self::PyIterator(py_iter))
     }
 }
 
-- 
2.43.0


From 1c888e9f4167403f787fcc4e3d5e8981fd7b7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 39/41] fix: keep the fraction of negative and of millisecond
 float timestamps

---
 src/input/datetime.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index e1b3b37..394c8dc 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -420,12 +420,23 @@ macro_rules! nan_check {
     };
 }
 
+/// speedate interprets timestamps with a larger absolute value as milliseconds
+const MILLISECONDS_WATERSHED: f64 = 20_000_000_000.0;
+
 pub fn float_as_datetime<'py>(input: &(impl Input<'py> + ?Sized), timestamp: f64) -> ValResult<EitherDateTime<'py>> {
     nan_check!(input, timestamp, DatetimeParsing);
-    let microseconds = timestamp.fract().abs() * 1_000_000.0;
+    // split into a whole part and a non-negative fraction, so that negative timestamps keep their fraction
+    let whole = timestamp.floor();
+    // timestamps beyond the watershed are in milliseconds, see `int_as_datetime`
+    let micros_per_unit = if whole.abs() > MILLISECONDS_WATERSHED {
+        1_000.0
+    } else {
+        1_000_000.0
+    };
+    let microseconds = (timestamp - whole) * micros_per_unit;
     // checking for extra digits in microseconds is unreliable with large floats,
     // so we just round to the nearest microsecond
-    int_as_datetime(input, timestamp.floor() as i64, microseconds.round() as u32)
+    int_as_datetime(input, whole as i64, microseconds.round() as u32)
 }
 
 pub fn date_as_datetime<'py>(date: &Bound<'py, PyDate>) -> PyResult<EitherDateTime<'py>> {
-- 
2.43.0


From cc283ba19d934c9699d5bf9713c56ebfac100840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 40/41] fix: do not truncate the number of days of an integer
 duration

---
 src/input/datetime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 394c8dc..5784436 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -534,7 +534,8 @@ pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResul
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
     // we can safely unwrap here since we've guaranteed seconds and microseconds can't cause overflow
-    let days = (total_seconds / 86400) as u32;
+    // a number of days which does not fit a u32 is too large in any case, `Duration::new` will say so
+    let days = u32::try_from(total_seconds / 86400).unwrap_or(u32::MAX);
     let seconds = (total_seconds % 86400) as u32;
     Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
 }
-- 
2.43.0


From cae0f0c2a25629514d36f7684abfd0f5bb26614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:16 +0000
Subject: [PATCH 41/41] fix: report durations below timedelta.min as a
 validation error

---
 src/input/datetime.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/input/datetime.rs b/src/input/datetime.rs
index 5784436..8088e20 100644
--- a/src/input/datetime.rs
+++ b/src/input/datetime.rs
@@ -525,11 +525,20 @@ pub fn bytes_as_timedelta<'py>(
             unix_timestamp_offset: Some(0),
         },
     ) {
-        Ok(dt) => Ok(dt.into()),
+        Ok(duration) => Ok(check_timedelta_min(input, duration)?.into()),
         Err(err) => Err(map_timedelta_err(input, err)),
     }
 }
 
+/// speedate limits the number of days symmetrically, but python's `timedelta.min` is -999,999,999 days exactly
+fn check_timedelta_min(input: impl ToErrorValue, duration: Duration) -> ValResult<Duration> {
+    if !duration.positive && duration.day == 999_999_999 && (duration.second, duration.microsecond) != (0, 0) {
+        Err(map_timedelta_err(input, ParseError::DurationDaysTooLarge))
+    } else {
+        Ok(duration)
+    }
+}
+
 pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResult<Duration> {
     let positive = total_seconds >= 0;
     let total_seconds = total_seconds.unsigned_abs();
@@ -537,7 +546,10 @@ pub fn int_as_duration(input: impl ToErrorValue, total_seconds: i64) -> ValResul
     // a number of days which does not fit a u32 is too large in any case, `Duration::new` will say so
     let days = u32::try_from(total_seconds / 86400).unwrap_or(u32::MAX);
     let seconds = (total_seconds % 86400) as u32;
-    Duration::new(positive, days, seconds, 0).map_err(|err| map_timedelta_err(input, err))
+    match Duration::new(positive, days, seconds, 0) {
+        Ok(duration) => check_timedelta_min(input, duration),
+        Err(err) => Err(map_timedelta_err(input, err)),
+    }
 }
 
 pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValResult<Duration> {
@@ -547,8 +559,10 @@ pub fn float_as_duration(input: impl ToErrorValue, total_seconds: f64) -> ValRes
     let microsecond = total_seconds.fract() * 1_000_000.0;
     let days = (total_seconds / 86400f64) as u32;
     let seconds = total_seconds as u64 % 86400;
-    Duration::new(positive, days, seconds as u32, microsecond.round() as u32)
-        .map_err(|err| map_timedelta_err(input, err))
+    match Duration::new(positive, days, seconds as u32, microsecond.round() as u32) {
+        Ok(duration) => check_timedelta_min(input, duration),
+        Err(err) => Err(map_timedelta_err(input, err)),
+    }
 }
 
 #[pyclass(module = "pydantic_core._pydantic_core", extends = PyTzInfo, frozen)]
-- 
2.43.0

