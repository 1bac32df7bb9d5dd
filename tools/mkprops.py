#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, one JSON object per line)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": x, "where": files[0]} for x in state if not x.startswith("none")],
                    "observe_at": observe, "hook_needed": hook},
    })

prop("P01", "Scalar coercion is exactly the documented conversion table",
     "For boolean, integer, float, string, bytes, null and any-typed schemas, every input is either rejected with the documented error code or converted to a value of exactly the declared type, with the same numeric or textual value the input denotes. Strict mode accepts only the types documented as strict; lax mode additionally accepts only the documented conversions (e.g. whole floats and digit strings for integers, never fractional or non-finite ones). Integers of any magnitude keep their exact value.",
     ["inputs", "configurations"], "all scalar inputs (including subclasses, huge integers, padded/underscored digit strings, non-finite floats, enum members) x strict/lax x python/JSON/strings input",
     "the input domain is unbounded and the table has three input formats and two strictness levels; tests sample a few points of it",
     ["src/input/input_python.rs", "src/input/input_json.rs", "src/input/input_string.rs", "src/input/shared.rs", "src/validators/int.rs", "src/validators/float.rs", "src/validators/bool.rs"],
     [("scalar conversion", "src/input/input_python.rs validate_int/validate_float/validate_bool/validate_str"), ("string number parsing", "src/input/shared.rs str_as_int/str_as_bool/float_as_int")],
     ["none (pure function of schema, mode and input)"], ["SchemaValidator.validate_python / validate_json / validate_strings result or error list"])

prop("P02", "Accepted values satisfy every declared constraint, rejected ones violate one",
     "A value returned for a schema with bounds (greater/less than, multiples, string length, pattern, case and whitespace options, finite-only) satisfies all of them after conversion. A value of an acceptable type is rejected only if it violates a declared bound, and the error names a bound that is actually violated.",
     ["inputs", "configurations"], "all combinations of constraints on numeric and string schemas, all inputs including boundary values and integers beyond 64 bits",
     "correctness at each boundary for every combination of constraints and numeric representation is an infinite family",
     ["src/validators/int.rs", "src/validators/float.rs", "src/validators/string.rs", "src/input/return_enums.rs"],
     [("numeric bounds", "src/validators/int.rs ConstrainedIntValidator"), ("string constraints", "src/validators/string.rs StrConstrainedValidator")],
     ["none"], ["SchemaValidator.validate_* result or error list with context"])

prop("P03", "Strict accepts a subset of lax, and the nearest strictness setting wins",
     "Whatever strict validation accepts for a scalar or container schema, lax validation accepts as well with an equal result. A strictness given for one call overrides the one in force for the schema tree, otherwise a schema's own setting overrides the configuration, and a setting never leaks to sibling schemas or later calls.",
     ["inputs", "configurations"], "all schemas x placements of strict flags (call, configuration, node) x inputs",
     "a relation between two runs over every schema and input; unit tests check single runs",
     ["src/validators/mod.rs", "src/validators/validation_state.rs", "src/build_tools.rs", "src/validators/lax_or_strict.rs"],
     [("strictness resolution", "src/validators/validation_state.rs strict_or"), ("per-node setting", "src/build_tools.rs is_strict")],
     ["the strictness in force for the current subtree"], ["paired results of validate_python(strict=True/False/None)"])

prop("P04", "Containers keep every item, in order, within their length bounds",
     "Validating a list, tuple, set, frozenset or mapping yields exactly the validated items of the input in input order (sets: the distinct ones; mappings: last value per validated key), dropping only items an inner validator asked to omit. Length bounds are enforced on what is produced, positional tuples match positions with at most one variadic section, and fail-fast stops at the first bad item.",
     ["inputs", "configurations"], "all container schemas (item schema, min/max length, fail-fast, variadic position) x all accepted input collection types",
     "interaction of bounds, omission, duplicates, defaults and item errors is combinatorial",
     ["src/validators/list.rs", "src/validators/tuple.rs", "src/validators/set.rs", "src/validators/frozenset.rs", "src/validators/dict.rs", "src/input/return_enums.rs"],
     [("item loops and length checks", "src/input/return_enums.rs validate_iter_to_vec/validate_iter_to_set/MaxLengthCheck"), ("tuple positions", "src/validators/tuple.rs")],
     ["none"], ["SchemaValidator.validate_* result or error list"])

prop("P05", "Every invalid part is reported once, with its exact location, in input order",
     "When validation of a composite input fails, the error list contains exactly one entry per failing leaf (unless a documented early stop applies), in schema/input order. Each entry's location is the path from the root to the failing part (aliases, keys, indexes, union tags, function labels) and its input is the offending object itself. Error count, list form, JSON form, text form and pickled copies all describe those same errors.",
     ["inputs"], "all nested schemas and inputs with any set of invalid leaves",
     "which subset of leaves is invalid is exponential; tests check one or two shapes",
     ["src/errors/line_error.rs", "src/errors/location.rs", "src/errors/validation_exception.rs", "src/validators/model_fields.rs", "src/input/return_enums.rs"],
     [("location prefixing", "src/errors/location.rs with_outer"), ("rendering", "src/errors/validation_exception.rs")],
     ["line errors accumulated by each composite validator"], ["ValidationError.errors(), error_count(), json(), str(), pickle round trip"])

prop("P06", "A smart union picks the best matching choice, independent of the failing ones",
     "A smart union accepts an input if and only if some choice accepts it on its own, and the result equals that of one accepting choice run alone. The chosen one has the most explicitly set fields when fields are counted, then the most exact type match, then the earliest position. If none accepts, the error lists every choice's own errors in order, labelled by choice.",
     ["inputs", "programs"], "all unions (nested, with models, containers, defaults, custom labels) x inputs",
     "best-match is an optimisation over all choices; correctness relates the union run to separate runs of each choice",
     ["src/validators/union.rs", "src/validators/validation_state.rs"],
     [("smart selection", "src/validators/union.rs validate_smart"), ("exactness tracking", "src/validators/validation_state.rs")],
     ["exactness and set-field count of the current attempt"], ["SchemaValidator.validate_* result or errors"])

prop("P07", "Ordered and tagged unions select exactly the first or the tagged choice",
     "A left-to-right union returns the result of the first accepting choice. A tagged union consults only the discriminator (a field, alias path or function) and validates with exactly the choice registered for that tag; a missing or unknown tag is one error at the union itself and no choice is tried.",
     ["inputs", "programs"], "all choice lists, discriminator forms (paths, alternatives, callables; string, integer, enum tags), all inputs incl. instances and attribute objects",
     "tag lookup mixes types, paths and input formats that tests sample sparsely",
     ["src/validators/union.rs", "src/common/union.rs", "src/lookup_key.rs", "src/validators/literal.rs"],
     [("left to right", "src/validators/union.rs validate_left_to_right"), ("tag dispatch", "src/validators/union.rs TaggedUnionValidator")],
     ["none"], ["SchemaValidator.validate_* result or errors; log of choices' callbacks"])

prop("P08", "Defaults apply only to absent values and are never shared between results",
     "A default (value or factory) is used exactly when the value is absent, or on a failure when the schema says so; it is validated only if requested, a factory runs exactly once per use and sees the already validated fields when it asks for them. A mutable default marked for copying is distinct in every result, and nothing a caller does to a result changes a later default.",
     ["inputs", "histories"], "all default schemas x presence/absence/failure x repeated validations with mutation of earlier results in between",
     "isolation is a property of histories of calls; tests check single calls",
     ["src/validators/with_default.rs", "src/validators/model_fields.rs", "src/validators/typed_dict.rs"],
     [("default application", "src/validators/with_default.rs WithDefaultValidator"), ("copying", "src/validators/with_default.rs default_value/copy_default")],
     ["the schema's stored default object"], ["results of a sequence of validate calls, object identity of defaults"])

prop("P09", "Field containers: required, extra and set-field bookkeeping are exact",
     "For typed dictionaries and model fields: a missing required field is one error; unknown keys are ignored, stored (validated if a schema is given) or rejected one by one according to the setting in force; result fields appear in schema order. The reported set of explicitly given fields is exactly those present in the input (plus stored extras), never those filled by defaults.",
     ["inputs", "configurations"], "all field schemas x extra behaviours x totality x subsets of present/absent/unknown/invalid keys x input formats",
     "subset of keys present, invalid and unknown is exponential",
     ["src/validators/model_fields.rs", "src/validators/typed_dict.rs"],
     [("field loop and extras", "src/validators/model_fields.rs validate"), ("typed dict", "src/validators/typed_dict.rs validate")],
     ["fields processed, keys consumed, set-field accumulator"], ["result dict, extra dict, set of fields, errors"])

prop("P10", "Aliases: the first usable alternative wins and consumes exactly its key",
     "A field is read from its aliases in declared order (plain, alternatives, nested paths with keys and indexes), with lookup by alias and by name switched by configuration or call, and by name only when enabled. The value used, the error location and the keys counted as known all correspond to the path that matched.",
     ["inputs", "configurations"], "all alias forms x by-alias/by-name settings x presence of competing keys x dict/JSON/attribute/strings inputs",
     "precedence among competing keys over several input formats is combinatorial",
     ["src/lookup_key.rs", "src/validators/model_fields.rs", "src/validators/typed_dict.rs", "src/validators/dataclass.rs"],
     [("alias lookup", "src/lookup_key.rs LookupKey"), ("alias/name selection", "src/lookup_key.rs LookupKeyCollection")],
     ["none"], ["result values, error locations, extras"])

prop("P11", "Model construction, pass-through and revalidation follow the declared policy",
     "Validating data produces an instance of exactly the declared class with the validated fields, set-field record and extras, running the custom initialiser or post-initialiser once. An existing instance is passed through untouched or revalidated into a new one strictly according to the policy (never, always, subclasses only), keeping its set-field record. In strict Python mode a dataclass schema accepts only instances; a model schema validates a mapping strictly.",
     ["inputs", "configurations"], "model, root-model and subclass instances x revalidation policy x strictness x custom init/post-init x nested models",
     "the policy table interacts with nesting, subclassing and strictness",
     ["src/validators/model.rs", "src/validators/dataclass.rs"],
     [("instance policy", "src/validators/model.rs validate"), ("revalidation", "src/build_tools.rs / validators/model.rs Revalidate")],
     ["instance dictionaries, set-field sets, extras"], ["identity and contents of the returned instance"])

prop("P12", "Field assignment is atomic and preserves instance validity over any history",
     "Validated assignment of one field either succeeds, changing that field to the validated value and adding it to the set-field record while leaving every other field as it was, or fails leaving the instance exactly as before. Frozen instances or fields and unknown names are rejected as configured, however many assignments came before.",
     ["histories"], "all sequences of valid/invalid/frozen/unknown assignments on model, root-model and dataclass instances",
     "the guarantee is about every history of operations on a mutable instance",
     ["src/validators/model.rs", "src/validators/model_fields.rs", "src/validators/dataclass.rs", "src/validators/mod.rs"],
     [("assignment", "src/validators/model.rs validate_assignment"), ("field assignment", "src/validators/model_fields.rs validate_assignment")],
     ["instance dict, set-field set, extras"], ["instance state after each assignment; errors"])

prop("P13", "Recursive validation stops on cycles, and only on cycles",
     "Validating self-referencing input with a recursive schema always terminates with a recursion error at the repeated object, never a crash. Acyclic input nested less deeply than the limit is never reported as recursive, however often objects are shared between branches and whatever failed earlier in the same call.",
     ["inputs", "histories"], "all finite object graphs (trees, DAGs with sharing, cycles of any length) x recursive schemas (unions, containers, models, definitions)",
     "graph shapes are unbounded; in particular failed branches and thresholds of the visited-set representation",
     ["src/recursion_guard.rs", "src/validators/definitions.rs", "src/validators/generator.rs"],
     [("visited stack", "src/recursion_guard.rs RecursionGuard/RecursionState"), ("guarded reference", "src/validators/definitions.rs DefinitionRefValidator")],
     ["stack of (object, schema node) pairs and depth"], ["validation result or recursion error with location"])

prop("P14", "User functions run exactly when, how often and with what the schema says",
     "Before, after, wrap and plain functions run in schema order exactly once per value reaching them, receive the value produced by the previous step and correct context (mode, context, field name, previously validated fields), and their result is what continues. A value or assertion error becomes one located error, an omit or use-default signal acts on the enclosing item or field, and any other exception reaches the caller unchanged.",
     ["programs", "inputs"], "all compositions of function validators in chains, unions, containers and fields, with functions that return, raise, omit, or call the wrapped handler zero or more times",
     "call order and counts over arbitrary compositions are not observable from a few result checks",
     ["src/validators/function.rs", "src/validators/chain.rs"],
     [("function validators", "src/validators/function.rs"), ("error conversion", "src/validators/function.rs convert_err")],
     ["log of calls"], ["recorded sequence of calls with arguments, result or exception"])

prop("P15", "Python, JSON and string inputs agree on every value they can all express",
     "Validating a JSON document gives the same outcome as validating, in JSON-compatible fashion, the Python object it decodes to: equal results for lax input that JSON can express, with the only documented differences (strict JSON accepts JSON representations of richer types). Feeding the text through the byte, bytearray or text entry points makes no difference, and a JSON-text field behaves like parsing then validating.",
     ["inputs", "programs"], "all schemas x all JSON-expressible inputs x the three entry points",
     "relates two code paths implemented separately per type over all inputs",
     ["src/input/input_json.rs", "src/input/input_python.rs", "src/input/input_string.rs", "src/validators/json.rs"],
     [("JSON input", "src/input/input_json.rs"), ("entry points", "src/validators/mod.rs validate_json")],
     ["none"], ["paired results"])

prop("P16", "Call arguments bind as the function signature dictates",
     "Argument schemas bind positional, keyword, positional-or-keyword, variadic and unpacked parameters like the declared signature: each parameter gets its one value or default, multiple or missing or unexpected arguments are reported individually, and everything is passed on in its declared kind. A call schema invokes the target exactly once with exactly the validated arguments, only when all are valid, and validates the return value if asked.",
     ["inputs", "programs"], "all signatures x all ways of passing positional/keyword/mapping arguments",
     "signature space x argument placement is combinatorial",
     ["src/validators/arguments.rs", "src/validators/arguments_v3.rs", "src/validators/call.rs"],
     [("binding", "src/validators/arguments.rs validate"), ("call", "src/validators/call.rs")],
     ["consumed positions and names"], ["result (args, kwargs), errors, recorded calls"])

prop("P17", "Dataclass construction binds fields, init-only values and defaults exactly",
     "A dataclass built from a mapping, from positional and keyword arguments or from an instance has every field set from its own source or default, init-only values delivered to the post-initialiser once in order, positional values going only to the fields of the initialiser that are not keyword-only, non-init fields rejected as input, and unknown names handled as configured. Slots, keyword-only and frozen variants behave the same.",
     ["inputs", "configurations"], "all dataclass schemas x input shapes",
     "interaction of init flags, kinds, defaults, aliases and extras",
     ["src/validators/dataclass.rs"],
     [("args binding", "src/validators/dataclass.rs DataclassArgsValidator"), ("instance", "src/validators/dataclass.rs DataclassValidator")],
     ["instance attributes"], ["instance attributes, post-init call log, errors"])

prop("P18", "Lazy iteration validates each element exactly when it is pulled",
     "A generator schema consumes nothing before the first pull and one source element per pull, yields validated elements in order, and reports a bad element with its index without losing the elements after it. Too many or too few elements are reported at the pull where the bound is broken, and iterators created from one validator are independent.",
     ["histories", "inputs"], "all interleavings of pulls on several iterators over any source with good and bad elements",
     "laziness and independence are properties of pull histories",
     ["src/validators/generator.rs"],
     [("lazy iterator", "src/validators/generator.rs ValidatorIterator")],
     ["source position, index"], ["sequence of next() outcomes and source consumption"])

prop("P19", "Validators and serializers are stateless: calls never influence each other",
     "The outcome of a call depends only on its own arguments and its schema, not on earlier calls, failures, or calls in progress: running the same call again, nested inside a callback of another call, or interleaved from several threads gives the outcome of running it alone.",
     ["schedules", "histories"], "all interleavings of calls at callback boundaries and all histories of succeeding, failing and raising calls on shared validators/serializers",
     "depends on the schedule and the history, which unit tests fix to one",
     ["src/validators/mod.rs", "src/validators/validation_state.rs", "src/serializers/mod.rs", "src/definitions.rs", "src/recursion_guard.rs"],
     [("per-call state", "src/validators/mod.rs SchemaValidator::_validate"), ("per-call serialization state", "src/serializers/mod.rs")],
     ["per-call strictness, data, recursion, exactness; lazily initialised caches"], ["outcome of every call in the schedule"])

prop("P20", "Serialization emits exactly the selected fields and items",
     "Include and exclude selections (sets, nested mappings, negative indexes, the all-items wildcard), the exclusion of unset, default-valued or null fields, alias use, round-trip mode and schema-level exclusions determine precisely which keys and items appear in the output, in source order; nothing else about the kept parts changes. Computed fields appear after the stored ones under the same rules and are left out for round trips.",
     ["inputs", "configurations"], "all models, dataclasses, typed dicts, lists, tuples and dicts (nested) x combinations of all selection options",
     "options multiply and nest; tests take them mostly one at a time",
     ["src/serializers/fields.rs", "src/serializers/filter.rs", "src/serializers/computed_fields.rs", "src/serializers/type_serializers/model.rs"],
     [("filter", "src/serializers/filter.rs"), ("field output", "src/serializers/fields.rs")],
     ["none"], ["SchemaSerializer.to_python / to_json output"])

prop("P21", "JSON text output is well-formed and agrees with JSON-mode Python output",
     "For every value and set of options, JSON text serialization yields parseable JSON whose content equals the JSON-compatible Python output for the same call, and both succeed or fail together. Indentation changes whitespace only; strings, keys and non-finite numbers are encoded as configured.",
     ["inputs", "configurations"], "all schemas, values conforming or not, options and indentation",
     "the two outputs come from two separate implementations of every serializer",
     ["src/serializers/infer.rs", "src/serializers/ser.rs", "src/serializers/shared.rs", "src/serializers/fields.rs"],
     [("JSON writer", "src/serializers/ser.rs"), ("dual implementations", "src/serializers/shared.rs TypeSerializer")],
     ["none"], ["to_json vs to_python(mode='json')"])

prop("P22", "Unexpected values are serialized by their own type and always signalled",
     "A value that does not match its schema is serialized according to its runtime type and produces a warning (or an error, or silence, as requested) for each mismatch and none otherwise. A union is serialized by the first choice the value fits exactly, then the first it fits loosely; tags only steer this choice, and warnings of rejected attempts never leak when some choice fits.",
     ["inputs", "configurations"], "all schemas x mismatched values at any depth x warning modes x unions of any nesting",
     "which part mismatches, and how unions retry, is combinatorial",
     ["src/serializers/extra.rs", "src/serializers/type_serializers/union.rs", "src/serializers/infer.rs"],
     [("fallback warnings", "src/serializers/extra.rs CollectWarnings"), ("union selection", "src/serializers/type_serializers/union.rs")],
     ["collected warnings"], ["output and warnings / PydanticSerializationError"])

prop("P23", "Serializing then validating gives back the same value",
     "For schemas whose output form is also an accepted input form, a validated value serialized in round-trip mode (Python or JSON) and validated again yields an equal value, and serializing that again yields the same output. Validation of an already validated value is idempotent.",
     ["inputs"], "all such schemas and all values they accept",
     "relates validators and serializers, tested separately, over all values",
     ["src/validators", "src/serializers"],
     [("round trip", "src/serializers/mod.rs to_json/to_python and src/validators/mod.rs")],
     ["none"], ["validate(serialize(validate(x)))"])

prop("P24", "Partial validation tolerates exactly the incomplete tail",
     "With partial mode on, truncated JSON or a trailing incomplete element is dropped and everything before it is kept; an error that is not in the last element of every enclosing collection is still reported. Complete valid input gives the same result as without partial mode.",
     ["inputs"], "all truncation points of all documents x collection schemas",
     "every truncation point of every document",
     ["src/validators/validation_state.rs", "src/validators/list.rs", "src/validators/dict.rs", "src/validators/typed_dict.rs", "src/input/return_enums.rs"],
     [("partial tail", "src/validators/validation_state.rs enumerate_last_partial"), ("JSON", "src/validators/mod.rs validate_json")],
     ["whether the current element is last"], ["results of validate_json/python(allow_partial=...)"])

prop("P25", "Rewriting a schema without changing its meaning does not change behaviour",
     "Replacing a subschema by a named definition and references to it, reusing a class's prebuilt validator, wrapping in a single-choice union, or rebuilding a validator or serializer from its pickled form gives the same results, errors and output for every input. A reference without a definition, or a definition given twice, is refused at build time.",
     ["programs", "inputs"], "all schemas and equivalent rewritings x inputs",
     "an equivalence over programs",
     ["src/definitions.rs", "src/validators/definitions.rs", "src/validators/prebuilt.rs", "src/serializers/type_serializers/definitions.rs", "src/validators/mod.rs"],
     [("definitions", "src/definitions.rs"), ("prebuilt", "src/validators/prebuilt.rs"), ("pickle", "src/validators/mod.rs __reduce__")],
     ["definition slots"], ["paired results"])

prop("P26", "Routing schemas apply exactly the branch and sequence they declare",
     "A chain feeds each step with the previous result and stops at the first failure; lax-or-strict and JSON-or-Python schemas run only the branch for the current strictness or input format; nullable passes null and nothing else; a custom-error schema replaces any inner failure by its single error at its own location; a JSON schema parses once and validates the content.",
     ["programs", "inputs"], "all nestings of routing schemas x modes x inputs",
     "nesting of mode-dependent routing is unbounded",
     ["src/validators/chain.rs", "src/validators/lax_or_strict.rs", "src/validators/json_or_python.rs", "src/validators/nullable.rs", "src/validators/custom_error.rs", "src/validators/json.rs"],
     [("chain", "src/validators/chain.rs"), ("routing", "src/validators/lax_or_strict.rs, json_or_python.rs, nullable.rs, custom_error.rs")],
     ["none"], ["results, errors, callback log"])

prop("P27", "Inputs and schemas are never modified, results share only what is documented",
     "No validation or serialization, successful or not, changes the input, the value being serialized, or the schema objects. Containers produced by a typed container schema are new objects; only values passed through untyped or instance schemas are shared with the input.",
     ["inputs", "histories"], "all schemas x inputs, with the whole input graph compared before and after",
     "absence of side effects must hold on every path, including failing ones",
     ["src/validators", "src/serializers", "src/input/return_enums.rs"],
     [("fresh containers", "src/validators/list.rs, dict.rs, model_fields.rs"), ("assignment copies", "src/validators/model.rs")],
     ["input object graph"], ["graph of input before/after and identity map of result"])

prop("P28", "Serialization of cyclic data ends in an error or reference, shared data is fine",
     "Serializing a value that contains itself terminates: JSON output raises a circular-reference error, Python output of untyped data returns the repeated object as is. Values shared between branches but not cyclic are serialized in full at every occurrence, whatever happened earlier in the call.",
     ["inputs"], "all finite object graphs x typed, recursive and untyped serializers",
     "graph shapes are unbounded",
     ["src/serializers/infer.rs", "src/recursion_guard.rs", "src/serializers/type_serializers/definitions.rs"],
     [("guard", "src/serializers/extra.rs recursion_guard")],
     ["visited stack"], ["output or ValueError"])

prop("P29", "Literal and enum schemas accept exactly their listed members",
     "A literal schema accepts precisely inputs equal to a listed value and returns that listed value, preferring the one of the input's own type where several are equal (true and 1); an enum schema returns the member for a member or, when not strict or from JSON, for a member's value, after consulting the class's fallback once. Anything else is one error naming the permitted values.",
     ["inputs", "configurations"], "all sets of literal/enum values (mixed ints, bools, strings, None, enum members, unhashable) x inputs of every type and format",
     "value lookups are split over several typed tables with fallbacks; tests sample few mixtures",
     ["src/validators/literal.rs", "src/validators/enum_.rs"],
     [("lookup", "src/validators/literal.rs LiteralLookup"), ("enum", "src/validators/enum_.rs")],
     ["none"], ["result identity or error"])

prop("P30", "Dates, times and durations convert exactly and respect their bounds",
     "Date, time, datetime and duration schemas accept the documented numeric, textual and object inputs, denote the same instant or length as the input to the microsecond, and enforce their bounds on it; impossible calendar values are always rejected. Their ISO text form reads back as the same value.",
     ["inputs"], "all ISO texts, numbers and objects x bounds x strictness",
     "calendar and unit arithmetic over an unbounded domain",
     ["src/validators/date.rs", "src/validators/datetime.rs", "src/validators/time.rs", "src/validators/timedelta.rs", "src/input/datetime.rs"],
     [("temporal conversion", "src/input/datetime.rs")],
     ["none"], ["result or errors"])

prop("P31", "Objects read by attribute validate like the mapping of their attributes",
     "When reading from attributes is enabled, an object validates exactly as the mapping of the attributes its fields name would, missing attributes count as absent, other attributes are not extras, and strings, numbers and collections are never treated as attribute sources. Disabled, no attribute is read.",
     ["inputs", "configurations"], "all field schemas with aliases and nesting x objects with any attributes (missing, raising) x enabling by configuration or call",
     "an equivalence over all objects and schemas",
     ["src/input/input_python.rs", "src/lookup_key.rs", "src/validators/model_fields.rs"],
     [("attribute source", "src/input/input_python.rs from_attributes_applicable/validate_model_fields"), ("attribute lookup", "src/lookup_key.rs py_get_attr")],
     ["none"], ["result or errors"])

prop("P32", "URL parsing and normalisation round-trips",
     "A URL accepted by a URL schema has exactly the components of the input after documented normalisation, satisfies the schema's limits, and its text form parses to an equal URL.",
     ["inputs"], "all strings x URL schema options",
     "unbounded text domain",
     ["src/validators/url.rs", "src/url.rs"],
     [("parsing", "src/validators/url.rs parse_url")], ["none"], ["Url attributes and text"])

prop("P33", "Serialization functions run once per value with the right context and handling",
     "A plain or wrapping serialization function runs exactly once per emitted value (never for excluded ones), gets the right value, field name, mode, options and handler, and its result is serialized by the declared return schema or by its own type. Being restricted to certain modes or to non-null values is honoured, and an omit signal or exception propagates as documented.",
     ["programs", "inputs"], "all function serializers on fields, items, keys and unions x options",
     "call counts and context for every composition",
     ["src/serializers/type_serializers/function.rs"],
     [("function serializers", "src/serializers/type_serializers/function.rs")],
     ["call log"], ["recorded calls, output"])

prop("P34", "Validators never keep dead classes and functions alive",
     "A class, its validator and serializer, and every function or default they hold form a structure that is reclaimed by garbage collection once nothing outside refers to it.",
     ["programs"], "every schema kind that can hold a Python object",
     "needs every holder kind, tests check a handful",
     ["src/py_gc.rs", "src/validators", "src/serializers"],
     [("traversal", "src/py_gc.rs PyGcTraverse")],
     ["reference graph"], ["weak references after collection"])

prop("P35", "No input or buildable schema crashes the library",
     "Every call ends with a result, a validation or serialization error, or an exception raised by user code; never an internal panic, and a refused schema is always a schema error at build time.",
     ["inputs", "programs"], "all schemas and inputs, with user callbacks behaving arbitrarily",
     "absence of panics must hold on all paths",
     ["src/validators", "src/serializers", "src/input"],
     [("arithmetic and unwraps", "src/validators/int.rs, src/validators/with_default.rs, src/input/return_enums.rs")],
     ["none"], ["exception types of all calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (len(p["title"]), p["title"])
        assert p["statement"].count(". ") <= 3, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
