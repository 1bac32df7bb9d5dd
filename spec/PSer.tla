-------------------------------- MODULE PSer --------------------------------
(* The serialization function: what every schema makes of a value, in python  *)
(* mode, in json mode and as JSON text.  S(s, v, f, x, st) is total: it gives  *)
(* a value, the "unexpected value" outcome that a union trial turns into the   *)
(* next choice, or an exception; the state threaded through it holds the       *)
(* warnings registered, those emitted and the user functions entered.          *)
EXTENDS PValidate

RECURSIVE S(_, _, _, _, _)    \* schema, value, filters, context, state
RECURSIVE K(_, _, _, _)       \* schema, key, context, state: the key of a JSON object
RECURSIVE Inf(_, _, _, _)     \* value, filters, context, state: by the value's own type
RECURSIVE IK(_, _, _)         \* key, context, state

(********************************* results **********************************)
SOk(v, st) == [k |-> "ok", v |-> v, e |-> <<>>, c |-> "", st |-> st]
SUnx(e, st) == [k |-> "unexp", v |-> None, e |-> e, c |-> "", st |-> st]
SExc(c, st) == [k |-> "exc", v |-> None, e |-> <<>>, c |-> c, st |-> st]
SerErr == "PydanticSerializationError"
Warn(m, ft, it) == [m |-> m, ft |-> ft, it |-> it]
AnyWarn == Warn("*", "", "")
St0 == [w |-> <<>>, em |-> <<>>, log |-> <<>>]
Register(x, e, st) == IF x.wm = "none" THEN st ELSE [st EXCEPT !.w = Append(@, e)]
SNote(f, args, i, st) == [st EXCEPT !.log = Append(@, [f |-> f, a |-> args, i |-> i])]
ModeJson(x) == x.mode = "json"
Json(x) == x.serde \/ ModeJson(x)  \* (JSON text may be asked for within python mode: round_trip)
AnyS == [type |-> "any"]

(****************************** facts of values *****************************)
TypeName(H, v0) == LET v == Deref(H, v0) IN
  CASE Has(v, "sub") -> (CASE v.t = "date" -> "SubDate" [] v.t = "time" -> "SubTime" [] v.t = "dt" -> "SubDateTime" [] v.t = "td" -> "SubDelta")
    [] v.t = "bytearray" -> "bytearray" [] v.t = "dec" -> "Decimal" [] v.t = "ell" -> "ellipsis"
    [] v.t = "itb" -> (CASE v.k = "gen" -> "generator" [] v.k = "iter" -> "MyIter" [] v.k = "deque" -> "deque"
                         [] v.k = "keys" -> "dict_keys" [] OTHER -> "dict_values")
    [] v.t = "args" -> "ArgsKwargs" [] v.t = "date" -> "date" [] v.t = "time" -> "time" [] v.t = "dt" -> "datetime"
    [] v.t = "td" -> "timedelta" [] v.t = "undef" -> "PydanticUndefinedType" [] v.t = "fn" -> "function" [] v.t = "err" -> v.c
    [] OTHER -> ClassOf(H, v)
(* the serializer a class carries: 0 or the number of a schema *)
Attached(x, c) ==
  LET own(k) == IndexWhere(x.att, LAMBDA a : a.c = k) IN
  IF own(c) > 0 THEN x.att[own(c)].s
  ELSE IF c \in DOMAIN Bases /\ \E b \in Bases[c] : own(b) > 0 THEN x.att[own(CHOOSE b \in Bases[c] : own(b) > 0)].s ELSE 0
ObT(x, v0) == LET v == Deref(x.H, v0) IN
  CASE v.t \in {"int", "big"} -> "int"
    [] v.t \in {"float", "fbig", "fopq", "fsp"} -> "float"
    [] v.t \in {"bytes", "bytessub"} -> "bytes"
    [] v.t = "inst" -> (IF Attached(x, v.c) > 0 THEN "ser" ELSE IF v.c \in DataClasses THEN "dataclass" ELSE "unknown")
    [] v.t = "itb" -> (IF v.k = "gen" THEN "generator" ELSE "unknown")
    [] v.t \in {"none", "bool", "str", "strsub", "intsub", "floatsub", "bytearray", "dec", "list", "tuple", "set", "frozenset", "dict", "enum",
                "date", "time", "dt", "td"} -> v.t
    [] OTHER -> "unknown"
(* int and float under their schemas: the exact type, a subclass or neither *)
IsTy(H, v0, ty) == LET v == Deref(H, v0) b == IF v.t = "enum" THEN EnumBase(v) ELSE "none" IN
  CASE ty = "int" -> (IF v.t \in {"int", "big"} THEN "exact" ELSE IF v.t \in {"bool", "intsub"} \/ b = "int" THEN "sub" ELSE "no")
    [] ty = "float" -> (IF v.t \in {"float", "fbig", "fopq", "fsp"} THEN "exact"
                        ELSE IF v.t \in {"floatsub", "int", "big", "bool", "intsub"} \/ b \in {"int", "float"} THEN "sub" ELSE "no")
    [] ty = "bool" -> (IF v.t = "bool" THEN "exact" ELSE "no")
AsInt(v0) == LET v == Plain(v0) IN
  CASE v.t = "bool" -> IntV(IF v.b THEN 1 ELSE 0) [] v.t = "intsub" -> IntV(v.i) [] OTHER -> v
AsFloat(v0) == LET v == Plain(v0) IN
  CASE v.t = "floatsub" -> MkFloatQ(v.q)
    [] v.t \in {"bool", "int", "big", "intsub"} -> IntToFloat(v)
    [] v.t = "dec" -> MkFloatDec(ParseDec(v.s))
    [] OTHER -> v
AsStr(v0) == LET v == Plain(v0) IN IF v.t = "wild" THEN v ELSE Str(v.s)
IsStr(H, v0) == LET v == Plain(Deref(H, v0)) IN StrLike(v) \/ v.t = "wild"
NonFinite(v) == v.t = "fsp" /\ v.k # "-0.0"
FloatJson(v, mode) ==
  IF ~NonFinite(v) \/ mode = "constants" THEN v
  ELSE IF mode = "null" THEN None
  ELSE Str(IF v.k = "nan" THEN "NaN" ELSE IF v.k = "inf" THEN "Infinity" ELSE "-Infinity")
InfNan(cfg) == Opt(cfg, "ser_json_inf_nan", "null")
(* Data.bytes: [y, u, hex, base64] *)
BytesRec(v) == CHOOSE b \in Range(Data.bytes) : b.y = v.y /\ b.u = v.u
BytesJson(v, cfg, x, st) ==
  LET m == Opt(cfg, "ser_json_bytes", "utf8") IN
  CASE m = "utf8" -> (IF v.u THEN SOk(Str(v.y), st) ELSE SExc("UnicodeDecodeError", st))
    [] m = "hex" -> SOk(Str(BytesRec(v).hex), st)
    [] OTHER -> SOk(Str(BytesRec(v).b64), st)
(* dates and times are written as ISO 8601 texts, durations as one or as seconds *)
TotalSeconds(v) ==
  IF Abs(v.days) > 20000 THEN [t |-> "wfloat"]
  ELSE LET w == v.days * 86400 + v.s neg == w < 0
           us == IF neg /\ v.us > 0 THEN 1000000 - v.us ELSE v.us
           n == Abs(IF neg /\ v.us > 0 THEN w + 1 ELSE w)
       IN MkFloatDec([ok |-> TRUE, neg |-> neg, id |-> ToString(n), fd |-> StripZR(PadN(us, 6)), k |-> ""])
TdMode(cfg) == Opt(cfg, "ser_json_timedelta", "iso8601")
TemporalJson(v, cfg) == IF v.t = "td" /\ TdMode(cfg) = "float" THEN TotalSeconds(v) ELSE Str(ShowTemporal(v))
TemporalKey(v, cfg) == IF v.t = "td" /\ TdMode(cfg) = "float"
                       THEN LET w == TotalSeconds(v) IN IF w.t = "wfloat" THEN [t |-> "wild"] ELSE Str(FloatStr(w, TRUE))
                       ELSE Str(ShowTemporal(v))
TemporalTag(s) == IF s.type = "datetime" THEN "dt" ELSE IF s.type = "timedelta" THEN "td" ELSE s.type
(* attributes a plain getattr finds, the properties of the pool included *)
CpClasses == {"MCF", "DCF"}
AttrOf(H, v0, name) == LET v == Deref(H, v0) IN
  IF v.t = "inst" /\ v.c \in CpClasses /\ name = "cp_list" THEN [k |-> "some", v |-> List(<<IntV(1), Str("x")>>)]
  ELSE IF v.t = "inst" /\ v.c \in CpClasses /\ name = "cp_none" THEN [k |-> "some", v |-> None]
  ELSE IF v.t = "inst" /\ v.c \in CpClasses /\ name = "cp_raise" THEN [k |-> "exc", c |-> "ValueError"]
  ELSE LET a == GetAttr(H, v, IF v.t = "inst" /\ v.c \in CpClasses /\ name = "cp_a" THEN "a" ELSE name) IN
       IF a.k = "some" THEN a ELSE [k |-> "exc", c |-> "AttributeError"]
(* what getattr(value, "__dict__") gives *)
Wild == [t |-> "wild"]
DictAttr(H, v0) == LET v == Deref(H, v0) IN
  CASE v.t = "inst" -> (IF v.c = "DS" THEN [k |-> "none"] ELSE [k |-> "some", d |-> v.d])
    [] v.t \in {"strsub", "intsub", "floatsub", "bytessub"} -> [k |-> "some", d |-> <<>>]
    [] v.t = "enum" -> [k |-> "some", d |-> [i \in 1..4 |-> <<Str(<<"_value_", "_name_", "__objclass__", "_sort_order_">>[i]), Wild>>]]
    [] v.t = "obj" -> [k |-> "some", d |-> << <<Str("label"), Wild>> >>]
    [] v.t = "map" -> [k |-> "some", d |-> << <<Str("_p"), Wild>> >>]
    [] v.t = "itb" /\ v.k = "iter" -> [k |-> "some", d |-> << <<Str("items"), Wild>>, <<Str("fail"), Wild>> >>]
    [] OTHER -> [k |-> "none"]

(********************************* filters **********************************)
NF == [i |-> Undefined, e |-> Undefined]
NoFilter == [hi |-> FALSE, i |-> <<>>, he |-> FALSE, e |-> <<>>]
SchemaFilter(s) ==
  IF ~Has(s, "serialization") THEN NoFilter
  ELSE [hi |-> Has(s.serialization, "include"), i |-> Opt(s.serialization, "include", <<>>),
        he |-> Has(s.serialization, "exclude"), e |-> Opt(s.serialization, "exclude", <<>>)]
IsEll(v) == v.t = "ell" \/ (v.t = "bool" /\ v.b)
Ell == [t |-> "ell"]
All == Str("__all__")
FBad == [k |-> "exc", c |-> "TypeError"]
(* a dict, or a set as the dict of its members *)
FAsDict(v) == CASE v.t = "dict" -> [k |-> "ok", d |-> v.d]
                [] v.t = "set" -> [k |-> "ok", d |-> [i \in DOMAIN v.l |-> <<v.l[i], Ell>>]]
                [] OTHER -> FBad
RECURSIVE FMerge(_, _, _)
FMerge(H, d, all) ==
  CASE all.t = "dict" ->
         FoldN(LAMBDA a, i :
                 IF a.k = "exc" THEN a
                 ELSE LET k == all.d[i][1] v == all.d[i][2] j == FindKey(H, a.d, k) IN
                      IF j = 0 THEN [a EXCEPT !.d = Append(@, <<k, v>>)]
                      ELSE IF IsEll(a.d[j][2]) THEN a
                      ELSE LET sub == FAsDict(a.d[j][2]) IN
                           IF sub.k = "exc" THEN sub
                           ELSE IF IsEll(v) THEN a
                           ELSE LET m == FMerge(H, sub.d, v) IN
                                IF m.k = "exc" THEN m ELSE [a EXCEPT !.d = [@ EXCEPT ![j] = <<@[1], Dict(m.d)>>]],
               [k |-> "ok", d |-> d], Len(all.d))
    [] all.t = "set" ->
         [k |-> "ok", d |-> d \o [i \in DOMAIN Filter(all.l, LAMBDA m : FindKey(H, d, m) = 0) |->
                                    <<Filter(all.l, LAMBDA m : FindKey(H, d, m) = 0)[i], Ell>>]]
    [] OTHER -> FBad
FLook(H, d, key) ==
  LET a == GetIn(H, d, key) b == GetIn(H, d, All) IN
  IF a.k = "none" THEN b
  ELSE IF b.k = "none" \/ IsEll(a.v) \/ IsEll(b.v) THEN a
  ELSE LET sub == FAsDict(a.v) IN
       IF sub.k = "exc" THEN sub
       ELSE LET m == FMerge(H, sub.d, b.v) IN IF m.k = "exc" THEN m ELSE Found(Dict(m.d))
FIn(H, l, key) == \E i \in DOMAIN l : PyEq(H, l[i], key) \/ PyEq(H, l[i], All)
FContains == {"set", "list", "tuple", "frozenset"}
(* does key stay, and with which filters: [k: omit / go / exc, f] *)
FiltR(H, key, flt, inc, exc) ==
  LET expl == flt.hi /\ FIn(H, flt.i, key)
      deflt == (flt.hi => \E i \in DOMAIN flt.i : PyEq(H, flt.i[i], key)) /\ (flt.he => ~\E i \in DOMAIN flt.e : PyEq(H, flt.e[i], key))
      e == CASE exc.t \in {"undef", "none"} -> [k |-> "go", n |-> Undefined]
             [] exc.t = "dict" -> LET m == FLook(H, exc.d, key) IN
                                  CASE m.k = "exc" -> m [] m.k = "none" -> [k |-> "go", n |-> Undefined]
                                    [] OTHER -> IF IsEll(m.v) THEN [k |-> "omit"] ELSE [k |-> "go", n |-> m.v]
             [] exc.t \in FContains -> IF FIn(H, exc.l, key) THEN [k |-> "omit"] ELSE [k |-> "go", n |-> Undefined]
             [] OTHER -> FBad
      go(i) == [k |-> "go", f |-> [i |-> i, e |-> e.n]]
      d == IF deflt THEN go(Undefined) ELSE [k |-> "omit"]
  IN IF e.k # "go" THEN e
     ELSE CASE inc.t \in {"undef", "none"} -> d
            [] inc.t = "dict" -> LET m == FLook(H, inc.d, key) IN
                                 CASE m.k = "exc" -> m
                                   [] m.k = "some" -> go(IF IsEll(m.v) THEN Undefined ELSE m.v)
                                   [] OTHER -> IF expl THEN d ELSE [k |-> "omit"]
            [] inc.t \in FContains -> IF FIn(H, inc.l, key) THEN go(Undefined) ELSE IF expl THEN d ELSE [k |-> "omit"]
            [] OTHER -> FBad
Filt(H, key, flt, f) == IF f = NF /\ flt = NoFilter THEN [k |-> "go", f |-> NF] ELSE FiltR(H, key, flt, Deref(H, f.i), Deref(H, f.e))
IsNeg(v) == (v.t = "int" /\ v.i < 0)
(* negative indices count from the end; len < 0: there is none *)
FNeg(H, v, len) ==
  CASE v.t = "dict" -> IF ~\E i \in DOMAIN v.d : IsNeg(v.d[i][1]) THEN [k |-> "ok", v |-> v]
                       ELSE IF len < 0 THEN [k |-> "exc", c |-> "ValueError"]
                       ELSE [k |-> "ok", v |-> Dict(Merge(H, <<>>, [i \in DOMAIN v.d |-> <<IF IsNeg(v.d[i][1]) THEN IntV(v.d[i][1].i + len) ELSE v.d[i][1], v.d[i][2]>>]))]
    [] v.t = "set" -> IF ~\E i \in DOMAIN v.l : IsNeg(v.l[i]) THEN [k |-> "ok", v |-> v]
                      ELSE IF len < 0 THEN [k |-> "exc", c |-> "ValueError"]
                      ELSE [k |-> "ok", v |-> [t |-> "set", l |-> [i \in DOMAIN v.l |-> IF IsNeg(v.l[i]) THEN IntV(v.l[i].i + len) ELSE v.l[i]]]]
    [] OTHER -> [k |-> "ok", v |-> v]
FiltIdx(H, n, len, flt, f) ==
  IF f = NF /\ flt = NoFilter THEN [k |-> "go", f |-> NF]
  ELSE LET i == FNeg(H, Deref(H, f.i), len) e == FNeg(H, Deref(H, f.e), len) IN
       IF i.k = "exc" THEN i ELSE IF e.k = "exc" THEN e ELSE FiltR(H, IntV(n), flt, i.v, e.v)

(******************************* normal forms *******************************)
(* several schema types have no serializer of their own *)
RECURSIVE SNorm(_)
SNorm(s) ==
  LET main ==
        CASE s.type = "chain" -> SNorm(Last(s.steps))
          [] s.type \in {"custom-error", "function-before", "function-after", "function-wrap"} -> SNorm(s.schema)
          [] s.type = "lax-or-strict" -> SNorm(s.strict_schema)
          [] s.type = "call" -> IF Has(s, "return_schema") THEN SNorm(s.return_schema) ELSE AnyS
          [] s.type \in {"function-plain", "is-instance", "is-subclass", "callable", "arguments"} -> AnyS
          [] s.type = "union" /\ Len(s.choices) = 1 -> SNorm(s.choices[1].schema)
          [] OTHER -> s
  IN IF ~Has(s, "serialization") THEN main
     ELSE CASE s.serialization.type \in {"function-plain", "function-wrap"} -> s
            [] s.serialization.type \in {"include-exclude-sequence", "include-exclude-dict", "base64"} -> main
            [] OTHER -> SNorm(s.serialization)
Bare1(s) == [k \in DOMAIN s \ {"serialization", "ref"} |-> s[k]]
IsFnSer(s) == Has(s, "serialization") /\ s.serialization.type \in {"function-plain", "function-wrap"}
FnInner(s) == Opt(s.serialization, "schema", Bare1(s))
RECURSIVE SName(_)
SName(s0) == LET s == SNorm(s0) IN
  IF IsFnSer(s) THEN (IF s.serialization.type = "function-plain" THEN "plain_function[" \o s.serialization.function.f \o "]"
                      ELSE "wrap_function[" \o s.serialization.function.f \o ", " \o SName(FnInner(s)) \o "]")
  ELSE CASE s.type \in {"list", "set", "frozenset", "generator"} /\ s.type # "generator" -> s.type \o "[" \o SName(Opt(s, "items_schema", AnyS)) \o "]"
         [] s.type = "dict" -> "dict[" \o SName(Opt(s, "keys_schema", AnyS)) \o ", " \o SName(Opt(s, "values_schema", AnyS)) \o "]"
         [] s.type = "tuple" ->
              LET n == [i \in DOMAIN s.items_schema |-> SName(s.items_schema[i])]
                  v == Opt(s, "variadic_item_index", -1) IN
              "tuple[" \o Join(IF v < 0 THEN n ELSE SubSeq(n, 1, v + 1) \o <<"...">> \o SubSeq(n, v + 2, Len(n)), ", ") \o "]"
         [] s.type = "union" -> "Union[" \o Join([i \in DOMAIN s.choices |-> SName(s.choices[i].schema)], ", ") \o "]"
         [] s.type = "tagged-union" -> "TaggedUnion[" \o Join([i \in DOMAIN s.choices |-> SName(s.choices[i].schema)], ", ") \o "]"
         [] s.type = "json-or-python" -> "json-or-python[json=" \o SName(s.json_schema) \o ", python=" \o SName(s.python_schema) \o "]"
         [] s.type = "literal" -> "literal[" \o Join([i \in DOMAIN s.expected |-> PyRepr(<<>>, s.expected[i])], ",") \o "]"
         [] s.type \in {"model", "dataclass"} -> s.cls
         [] s.type \in {"model-fields", "typed-dict", "dataclass-args"} -> "general-fields"
         [] s.type = "format" /\ s.formatting_string = "" -> "to-string"
         [] s.type = "definitions" -> SName(s.schema)
         [] OTHER -> s.type
DefOf(x, ref) == CHOOSE d \in Range(x.defs) : d.ref = ref
RECURSIVE Retry(_, _, _)
Retry(s0, x, seen) == LET s == SNorm(s0) IN
  IF IsFnSer(s) THEN
     LET ret == Has(s.serialization, "return_schema") /\ Retry(s.serialization.return_schema, x, seen) IN
     IF s.serialization.type = "function-wrap" THEN ret \/ Retry(FnInner(s), x, seen)
     ELSE ret \/ (Opt(s.serialization, "when_used", "always") # "always" /\ Retry(Bare1(s), x, seen))
  ELSE CASE s.type \in {"model", "dataclass", "tuple", "int"} -> TRUE
         [] s.type = "list" -> Has(s, "items_schema") /\ Retry(s.items_schema, x, seen)
         [] s.type \in {"nullable", "default"} -> Retry(s.schema, x, seen)
         [] s.type = "enum" -> EnumRec(s.cls).base = "int"
         [] s.type \in {"union", "tagged-union"} -> \E i \in DOMAIN s.choices : Retry(s.choices[i].schema, x, seen)
         [] s.type = "definition-ref" -> s.schema_ref \notin seen /\ Retry(DefOf(x, s.schema_ref).s, x, seen \cup {s.schema_ref})
         [] s.type = "definitions" -> Retry(s.schema, x, seen)
         [] OTHER -> FALSE

(******************************** JSON text *********************************)
Escapes == [c \in {Data.jesc[i][1] : i \in DOMAIN Data.jesc} |-> (CHOOSE p \in Range(Data.jesc) : p[1] = c)[2]]
RECURSIVE JEsc(_)
JEsc(s) == IF Len(s) = 0 THEN "" ELSE (IF Ch(s, 1) \in DOMAIN Escapes THEN Escapes[Ch(s, 1)] ELSE Ch(s, 1)) \o JEsc(From(s, 2))
RECURSIVE JPlain(_)
JPlain(v) == CASE v.t \in {"none", "bool", "int", "big", "str"} -> TRUE
               [] v.t = "float" -> v.q < 4000000 /\ v.q > -4000000
               [] v.t = "list" -> \A i \in DOMAIN v.l : JPlain(v.l[i])
               [] v.t = "dict" -> \A i \in DOMAIN v.d : v.d[i][1].t = "str" /\ JPlain(v.d[i][2])
               [] OTHER -> FALSE
RECURSIVE JText(_)
JText(v) == CASE v.t = "none" -> "null" [] v.t = "bool" -> (IF v.b THEN "true" ELSE "false")
              [] v.t \in {"int", "big"} -> NumStr(v) [] v.t = "float" -> FloatStr(v, FALSE)
              [] v.t = "str" -> "\"" \o JEsc(v.s) \o "\""
              [] v.t = "list" -> "[" \o Join([i \in DOMAIN v.l |-> JText(v.l[i])], ",") \o "]"
              [] v.t = "dict" -> "{" \o Join([i \in DOMAIN v.d |-> "\"" \o JEsc(v.d[i][1].s) \o "\":" \o JText(v.d[i][2])], ",") \o "}"
JStr(v) == IF JPlain(v) THEN Str(JText(v)) ELSE Wild

(********************************* guards ***********************************)
(* identity: a reference, or an inline value that nothing else can equal *)
Guarded(x, v, id) == \E i \in DOMAIN x.guard : x.guard[i].id = id /\ x.guard[i].v.t = v.t /\ x.guard[i].v = v
TooDeep(x) == Len(x.guard) >= DepthLimit
Enter(x, v, id) == [x EXCEPT !.guard = Append(@, [v |-> v, id |-> id])]
Identity(v) == v.t \in {"ref", "inst", "obj", "fn", "cls", "enum", "undef", "ell"}

(********************************* outcomes *********************************)
OnFallback(name, v, x, st) ==   \* [go, r]: go on inferring, or the outcome
  IF Deref(x.H, v).t = "none" THEN [go |-> TRUE, st |-> st]
  ELSE IF x.check # "none" THEN [go |-> FALSE, r |-> SUnx(IF x.serde THEN Warn("", "", "") ELSE Warn("", name, TypeName(x.H, v)), st)]
  ELSE [go |-> TRUE, st |-> Register(x, Warn("", name, TypeName(x.H, v)), st)]
Fb(s, v, f, x, st) == LET o == OnFallback(SName(s), v, x, st) IN IF o.go THEN Inf(v, f, x, o.st) ELSE o.r
FbKey(s, key, x, st) == LET o == OnFallback(SName(s), key, [x EXCEPT !.serde = FALSE], st) IN IF o.go THEN IK(key, x, o.st) ELSE o.r
NoKey(s, key, x, st) == IF Deref(x.H, key).t = "none" THEN SExc("TypeError", st) ELSE FbKey(s, key, x, st)
Then(r, F(_, _)) == IF r.k = "ok" THEN F(r.v, r.st) ELSE r
(* a loop over items: stop when an item fails *)
LoopSt(st) == [stop |-> FALSE, r |-> SOk(None, st), out |-> <<>>, st |-> st]
Fail(a, r) == [a EXCEPT !.stop = TRUE, !.r = r]
Items(l, len, flt, f, x, st, Do(_, _, _)) ==
  FoldN(LAMBDA a, i :
          IF a.stop THEN a
          ELSE LET nf == FiltIdx(x.H, i - 1, len, flt, f) IN
               IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
               ELSE IF nf.k = "omit" THEN a
               ELSE LET r == Do(i, nf.f, a.st) IN
                    IF r.k = "ok" THEN [a EXCEPT !.out = Append(@, r.v), !.st = r.st] ELSE Fail(a, r),
        LoopSt(st), Len(l))
GenItems(v) == IF v.fail >= 0 /\ v.fail < Len(v.l) THEN SubSeq(v.l, 1, v.fail) ELSE v.l
Done(a, v) == IF a.stop THEN a.r ELSE SOk(v, a.st)
(* one entry of the output mapping: in JSON text repeated keys stay *)
Put(x, a, k, r) ==
  IF r.k # "ok" THEN Fail(a, r)
  ELSE IF x.serde \/ k.t = "wild" THEN [a EXCEPT !.out = Append(@, <<k, r.v>>), !.st = r.st]
  ELSE IF ~Hashable(x.H, k) THEN Fail(a, SExc("TypeError", r.st))
  ELSE [a EXCEPT !.out = PutKey(x.H, @, k, r.v), !.st = r.st]
(* a set made of the items *)
MkSet(ty, l, x, st) ==
  IF \E i \in DOMAIN l : ~Hashable(x.H, l[i]) THEN SExc("TypeError", st)
  ELSE IF \E i \in DOMAIN l : l[i].t = "wild" THEN SOk(Wild, st)
  ELSE SOk([t |-> ty, l |-> FoldN(LAMBDA a, i : IF InSet(x.H, a, l[i]) THEN a ELSE Append(a, l[i]), <<>>, Len(l))], st)

(********************************* inference ********************************)
SCall(f, x, st, v) ==   \* the fallback function
  LET st2 == SNote(f.f, <<v>>, [n |-> 0], st) IN
  CASE f.b = "id" -> SOk(v, st2)
    [] f.b = "const" -> SOk(f.v, st2)
    [] f.b = "wrap_list" -> SOk(List(<<v>>), st2)
    [] OTHER -> SExc(RawCls(f), st2)
InfUnknown(v, f, x, st) ==
  IF x.fb.f # "" THEN Then(SCall(x.fb, x, st, v), LAMBDA w, st2 : Inf(w, f, x, st2))
  ELSE IF ~Json(x) THEN SOk(v, st)
  ELSE IF x.su THEN SOk(Wild, st)
  ELSE SExc(SerErr, st)
WithSer(n, x) ==
  [x EXCEPT !.check = "none", !.model = Undefined, !.fname = "", !.icfg = x.cfgs[n], !.bcfg = x.cfgs[n], !.defs = <<>>]
InfPairs(d, f, x, st) ==
  LET a == FoldN(LAMBDA a, i :
        IF a.stop THEN a
        ELSE LET nf == Filt(x.H, d[i][1], NoFilter, f) IN
             IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
             ELSE IF nf.k = "omit" THEN a
             ELSE LET kr == IF Json(x) THEN IK(d[i][1], x, a.st) ELSE SOk(d[i][1], a.st) IN
                  IF kr.k # "ok" THEN Fail(a, kr) ELSE Put(x, a, kr.v, Inf(d[i][2], nf.f, x, kr.st)),
        LoopSt(st), Len(d))
  IN Done(a, Dict(a.out))
RECURSIVE DcPairs(_, _)
DcPairs(H, v) == \* the fields of a dataclass in the order of the class
  LET names == Data.dcfields[v.c] IN
  [i \in DOMAIN names |-> <<Str(names[i]), LET g == GetAttr(H, v, names[i]) IN IF g.k = "some" THEN g.v ELSE [t |-> "missing"]>>]
Inf(v0, f, x0, st) ==
  LET x == Enter(x0, v0, "") v == Deref(x.H, v0) ty == ObT(x, v0)
      seq(Out(_)) == LET a == Items(v.l, Len(v.l), NoFilter, f, x, st, LAMBDA i, nf, s2 : Inf(v.l[i], nf, x, s2)) IN Done(a, Out(a.out))
      sets(py) == LET a == Items(v.l, Len(v.l), NoFilter, NF, x, st, LAMBDA i, nf, s2 : Inf(v.l[i], f, x, s2)) IN
                  IF a.stop THEN a.r ELSE IF Json(x) THEN SOk(List(a.out), a.st) ELSE MkSet(py, a.out, x, a.st)
  IN
  IF TooDeep(x0) \/ (Identity(v0) /\ Guarded(x0, v0, "")) THEN
     (IF x.serde THEN (IF x.su THEN SOk(Str("..."), st) ELSE SExc("ValueError", st))
      ELSE IF Json(x) THEN SExc("ValueError", st) ELSE SOk(v0, st))
  ELSE CASE v.t \in {"wild", "wfloat"} -> SOk(v, st)
         [] ty = "ser" -> S(x.schemas[Attached(x, v.c)].v, v0, f, WithSer(Attached(x, v.c), x), st)
         [] ty = "dataclass" ->
              LET d == DcPairs(x.H, v) IN
              IF \E i \in DOMAIN d : d[i][2].t = "missing" THEN SExc("AttributeError", st) ELSE InfPairs(d, f, x, st)
         [] ty = "dict" -> InfPairs(v.d, f, x, st)
         [] ty = "list" -> seq(List)
         [] ty = "tuple" -> seq(LAMBDA l : IF Json(x) THEN List(l) ELSE Tuple(l))
         [] ty \in {"set", "frozenset"} -> sets(ty)
         [] ty = "generator" ->
              IF ~Json(x) THEN SOk([t |-> "obj", n |-> "SerializationIterator"], st)
              ELSE LET a == Items(GenItems(v), -1, NoFilter, f, x, st, LAMBDA i, nf, s2 : Inf(v.l[i], nf, x, s2)) IN
                   IF a.stop THEN a.r ELSE IF v.fail >= 0 THEN SExc("RuntimeError", a.st) ELSE SOk(List(a.out), a.st)
         [] ty = "unknown" -> InfUnknown(v0, f, x, st)
         [] ~Json(x) -> SOk(v0, st)
         [] ty \in {"none", "bool", "int", "str"} -> SOk(v, st)
         [] ty = "intsub" -> SOk(AsInt(v), st)
         [] ty \in {"float", "floatsub"} ->
              LET w == AsFloat(v) IN
              SOk(IF x.serde \/ InfNan(x.icfg) = "null" THEN FloatJson(w, InfNan(x.icfg)) ELSE w, st)
         [] ty = "dec" -> SOk(Str(v.s), st)
         [] ty = "strsub" -> SOk(Str(v.s), st)
         [] ty \in {"bytes", "bytearray"} -> BytesJson(v, x.icfg, x, st)
         [] ty = "enum" -> Inf(EnumVal(v), f, x, st)
         [] ty \in {"date", "time", "dt", "td"} -> SOk(TemporalJson(v, x.icfg), st)
IK(key, x, st) ==
  LET v == Deref(x.H, key) ty == ObT(x, key) IN
  CASE v.t \in {"wild", "wfloat"} -> SOk(v, st)
    [] ty = "none" -> SOk(Str("None"), st)
    [] ty = "bool" -> SOk(Str(IF v.b THEN "true" ELSE "false"), st)
    [] ty \in {"int", "intsub"} -> SOk(Str(NumStr(v)), st)
    [] ty \in {"float", "floatsub"} -> SOk(IF NonFinite(v) /\ InfNan(x.icfg) = "null" THEN Str("None") ELSE Str(PyRepr(x.H, v)), st)
    [] ty \in {"str", "strsub"} -> SOk(Str(v.s), st)
    [] ty = "dec" -> SOk(Str(v.s), st)
    [] ty \in {"bytes", "bytearray"} -> BytesJson(v, x.icfg, x, st)
    [] ty = "tuple" ->
         LET a == FoldN(LAMBDA a, i : IF a.stop THEN a
                          ELSE LET r == IK(v.l[i], x, a.st) IN IF r.k # "ok" THEN Fail(a, r) ELSE [a EXCEPT !.out = Append(@, r.v.s), !.st = r.st],
                        LoopSt(st), Len(v.l))
         IN Done(a, Str(Join(a.out, ",")))
    [] ty \in {"list", "set", "frozenset", "dict", "generator"} -> SExc("TypeError", st)
    [] ty = "enum" -> IK(EnumVal(v), x, st)
    [] ty \in {"ser", "dataclass"} -> IF Hashable(x.H, v) THEN SOk(Wild, st) ELSE SExc("TypeError", st)
    [] ty \in {"date", "time", "dt", "td"} -> SOk(TemporalKey(v, x.icfg), st)
    [] OTHER -> IF x.fb.f # "" THEN Then(SCall(x.fb, x, st, key), LAMBDA w, st2 : IK(w, x, st2))
                ELSE IF x.su THEN SOk(Wild, st) ELSE SExc(SerErr, st)

(****************************** simple schemas ******************************)
SNumber(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0) k == IsTy(x.H, v, s.type) IN
  IF x.serde THEN
     (IF k # "no" \/ (s.type = "float" /\ v.t = "dec")
      THEN SOk(IF s.type = "int" THEN AsInt(v) ELSE IF s.type = "bool" THEN v ELSE FloatJson(AsFloat(v), InfNan(x.bcfg)), st)
      ELSE Fb(s, v0, f, x, st))
  ELSE CASE k = "exact" -> SOk(v, st)
         [] k = "sub" -> IF x.check = "strict" THEN SUnx(Warn("", "", ""), st)
                         ELSE IF Json(x) THEN SOk(IF s.type = "int" THEN AsInt(v) ELSE AsFloat(v), st)
                         ELSE Inf(v0, f, x, st)
         [] OTHER -> Fb(s, v0, f, x, st)
LitCheck(s, v0, x) ==
  LET v == Deref(x.H, v0) p == Plain(v)
      isInt(e) == IsI64(e) \/ (e.t = "enum" /\ EnumBase(e) = "int") \/ e.t = "intsub"
      isStr(e) == StrLike(Plain(e))
      n(e) == LET q == AsInt(e) IN q
  IN IF x.check = "none" THEN "ok"
     ELSE IF v.t # "bool" /\ p.t \in {"int", "big", "intsub"} /\ InI64(AsInt(v)) /\ \E i \in DOMAIN s.expected : isInt(s.expected[i]) /\ n(s.expected[i]) = AsInt(v) THEN "int"
     ELSE IF StrLike(p) /\ \E i \in DOMAIN s.expected : isStr(s.expected[i]) /\ Plain(s.expected[i]).s = p.s THEN "str"
     ELSE IF \E i \in DOMAIN s.expected : ~isInt(s.expected[i]) /\ ~isStr(s.expected[i]) /\ PyEq(x.H, s.expected[i], v0) THEN "ok"
     ELSE "no"
Used(when, v, x) ==
  CASE when = "always" -> TRUE [] when = "unless-none" -> Deref(x.H, v).t # "none"
    [] when = "json" -> ModeJson(x) [] OTHER -> ModeJson(x) /\ Deref(x.H, v).t # "none"
UsedJson(when, v, x) == when \in {"always", "json"} \/ Deref(x.H, v).t # "none"
(* str(value), where the model knows it *)
RECURSIVE ReprOk(_, _)
ReprOk(H, v0) == LET v == Deref(H, v0) IN
  v.t \in {"none", "bool", "int", "intsub", "float"} \/ (v.t = "str" /\ v.s \in {"", "a", "b", "c", "x", "y", "1", "2", "abc"})
  \/ (v.t \in {"list", "tuple"} /\ \A i \in DOMAIN v.l : ReprOk(H, v.l[i]))
StrOf(H, v0) == LET v == Deref(H, v0) IN
  IF v.t \in {"none", "bool", "int", "big", "intsub", "str", "strsub", "enum"} THEN Str(PyStr(H, v))
  ELSE IF v.t \in {"float", "floatsub"} THEN Str(PyRepr(H, v)) ELSE IF v.t = "dec" THEN Str(v.s)
  ELSE IF v.t \in {"list", "tuple"} /\ ReprOk(H, v) THEN Str(PyRepr(H, v)) ELSE Wild
(* format(value, spec) for the specs "s" and "d" *)
FormatOf(H, v0, spec) == LET v == Deref(H, v0) IN
  IF spec = "s" THEN (IF v.t = "str" THEN [k |-> "ok", v |-> Str(v.s)] ELSE IF v.t \in {"strsub", "enum"} THEN [k |-> "ok", v |-> Wild] ELSE [k |-> "exc"])
  ELSE IF v.t \in {"bool", "int", "big", "intsub"} THEN [k |-> "ok", v |-> Str(NumStr(AsInt(v)))] ELSE [k |-> "exc"]
Formats(s, v, x, st) ==
  IF s.type = "to-string" \/ s.formatting_string = "" THEN SOk(StrOf(x.H, v), st)
  ELSE LET r == FormatOf(x.H, v, s.formatting_string) IN IF r.k = "ok" THEN SOk(r.v, st) ELSE SExc(SerErr, st)

(******************************** containers ********************************)
SSeq(s, v0, f, x, st) ==   \* list
  LET v == Deref(x.H, v0) it == Opt(s, "items_schema", AnyS) IN
  IF v.t # "list" THEN Fb(s, v0, f, x, st)
  ELSE LET a == Items(v.l, Len(v.l), SchemaFilter(s), f, x, st, LAMBDA i, nf, s2 : S(it, v.l[i], nf, x, s2)) IN Done(a, List(a.out))
SSet(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0) it == Opt(s, "items_schema", AnyS) IN
  IF v.t # s.type THEN Fb(s, v0, f, x, st)
  ELSE LET a == Items(v.l, Len(v.l), NoFilter, NF, x, st, LAMBDA i, nf, s2 : S(it, v.l[i], f, x, s2)) IN
       IF a.stop THEN a.r ELSE IF Json(x) THEN SOk(List(a.out), a.st) ELSE MkSet(s.type, a.out, x, a.st)
(* which serializer each item of a tuple gets; 0: none is left *)
TupleSer(s, n) ==
  LET m == Len(s.items_schema) v == Opt(s, "variadic_item_index", -1) nv == IF n + 1 > m THEN n + 1 - m ELSE 0 IN
  IF v < 0 THEN [i \in 1..n |-> IF i <= m THEN i ELSE 0]
  ELSE LET sers == [i \in 1..v |-> i] \o [i \in 1..nv |-> v + 1] \o [i \in 1..(m - v - 1) |-> v + 1 + i] IN
       [i \in 1..Min2(n, Len(sers)) |-> sers[i]]
TupleLoop(s, v, f, x, st, Do(_, _, _, _)) ==
  LET n == Len(v.l) who == TupleSer(s, n) IN
  IF ~Has(s, "variadic_item_index") /\ x.check = "strict" /\ n # Len(s.items_schema)
  THEN Fail(LoopSt(st), SUnx(Warn("Expected " \o ToString(Len(s.items_schema)) \o " items, but got " \o ToString(n), "", ""), st))
  ELSE FoldN(LAMBDA a, i :
         IF a.stop THEN a
         ELSE LET b == IF who[i] = 0 /\ i = Len(s.items_schema) + 1 THEN [a EXCEPT !.st = Register(x, Warn("Unexpected extra items present in tuple", "", ""), @)] ELSE a
                  nf == FiltIdx(x.H, i - 1, n, SchemaFilter(s), f) IN
              IF nf.k = "exc" THEN Fail(b, SExc(nf.c, b.st))
              ELSE IF nf.k = "omit" THEN b
              ELSE LET r == Do(i, IF who[i] = 0 THEN AnyS ELSE s.items_schema[who[i]], nf.f, b.st) IN
                   IF r.k = "ok" THEN [b EXCEPT !.out = Append(@, r.v), !.st = r.st] ELSE Fail(b, r),
         LoopSt(st), Len(who))
STuple(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0) IN
  IF v.t # "tuple" THEN Fb(s, v0, f, x, st)
  ELSE LET a == TupleLoop(s, v, f, x, st, LAMBDA i, sc, nf, s2 : S(sc, v.l[i], nf, x, s2)) IN
       IF a.stop THEN (IF x.serde /\ a.r.k = "unexp" /\ a.r.e.m # "" THEN SExc(SerErr, a.r.st) ELSE a.r)
       ELSE SOk(IF Json(x) THEN List(a.out) ELSE Tuple(a.out), a.st)
SDict(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0) ks == Opt(s, "keys_schema", AnyS) vs == Opt(s, "values_schema", AnyS) IN
  IF v.t # "dict" THEN Fb(s, v0, f, x, st)
  ELSE LET a == FoldN(LAMBDA a, i :
             IF a.stop THEN a
             ELSE LET nf == Filt(x.H, v.d[i][1], SchemaFilter(s), f) IN
                  IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
                  ELSE IF nf.k = "omit" THEN a
                  ELSE LET kr0 == IF Json(x) THEN K(ks, v.d[i][1], x, a.st) ELSE S(ks, v.d[i][1], NF, x, a.st)
                           kr == IF x.serde /\ kr0.k = "unexp" THEN SExc(SerErr, kr0.st) ELSE kr0 IN
                       IF kr.k # "ok" THEN Fail(a, kr) ELSE Put(x, a, kr.v, S(vs, v.d[i][2], nf.f, x, kr.st)),
             LoopSt(st), Len(v.d))
       IN Done(a, Dict(a.out))
SGen(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0) it == Opt(s, "items_schema", AnyS) IN
  IF ~(v.t = "itb" /\ v.k = "gen") THEN Fb(s, v0, f, x, st)
  ELSE IF ~Json(x) THEN SOk([t |-> "obj", n |-> "SerializationIterator"], st)
  ELSE LET a == Items(GenItems(v), -1, SchemaFilter(s), f, x, st, LAMBDA i, nf, s2 : S(it, v.l[i], nf, x, s2)) IN
       IF a.stop THEN a.r ELSE IF v.fail >= 0 THEN SExc("RuntimeError", a.st) ELSE SOk(List(a.out), a.st)

(********************************* unions ***********************************)
(* the first choice that takes the value; what the failures leave is kept *)
Trial(choices, x, st, Try(_, _, _)) ==
  FoldN(LAMBDA a, i :
          IF a.ok THEN a
          ELSE LET r == Try(choices[i].schema, x, a.st) IN
               IF r.k = "ok" THEN [a EXCEPT !.ok = TRUE, !.r = r, !.st = r.st]
               ELSE [a EXCEPT !.errs = Append(@, IF r.k = "unexp" THEN r.e ELSE AnyWarn), !.st = r.st],
        [ok |-> FALSE, r |-> SOk(None, st), errs |-> <<>>, st |-> st], Len(choices))
(* [k: "some" r / "none" st / "bad" r] *)
UnionTry(s, x, st, Try(_, _, _)) ==
  LET a == Trial(s.choices, [x EXCEPT !.check = "strict"], st, Try)
      lax == x.check # "strict" /\ Retry(s, x, {})
      b == IF a.ok \/ ~lax THEN a ELSE LET b0 == Trial(s.choices, [x EXCEPT !.check = "lax"], a.st, Try) IN [b0 EXCEPT !.errs = a.errs]
  IN IF b.ok THEN [k |-> "some", r |-> b.r]
     ELSE IF x.check = "none"
     THEN [k |-> "none", st |-> FoldN(LAMBDA t, i : Register(x, b.errs[i], t), b.st, Len(b.errs))]
     ELSE [k |-> "bad", r |-> SUnx(AnyWarn, b.st)]
TagOf(s, v0, x, st) ==  \* [k, v, st]
  LET d == s.discriminator v == Deref(x.H, v0) IN
  IF d.k = "fn" THEN
     LET st2 == SNote(d.f, <<v0>>, [n |-> 0], st) IN
     CASE d.b = "key" ->
            LET g == IF v.t = "dict" THEN GetIn(x.H, v.d, Str(d.key)) ELSE GetAttr(x.H, v0, d.key) IN
            [k |-> "some", v |-> IF g.k = "some" THEN g.v ELSE None, st |-> st2]
       [] d.b = "type" -> [k |-> "some", v |-> Str(TypeName(x.H, v0)), st |-> st2]
       [] d.b = "const" -> [k |-> "some", v |-> d.v, st |-> st2]
       [] d.b = "id" -> [k |-> "some", v |-> v0, st |-> st2]
       [] OTHER -> [k |-> "none", st |-> st2]
  ELSE LET ps == Paths(d)
           g(p) == IF v.t = "dict" THEN PathIn([H |-> x.H, mode |-> "python"], v.d, p) ELSE PathAttr([H |-> x.H, mode |-> "python"], v0, p)
           i == FirstPath(ps, g) IN
       IF i = 0 THEN [k |-> "none", st |-> st] ELSE [k |-> "some", v |-> g(ps[i]).v, st |-> st]
TaggedTry(s, v, x, st, Try(_, _, _)) ==
  LET tag == TagOf(s, v, x, st)
      ts == IF tag.k = "some" THEN StrOf(x.H, tag.v) ELSE Str("")
      i == IF tag.k = "some" /\ ts.t = "str" THEN LastOf({j \in DOMAIN s.choices : PyStr(x.H, s.choices[j].tag) = ts.s}) ELSE 0
      r1 == Try(s.choices[i].schema, [x EXCEPT !.check = "strict"], tag.st)
      r2 == Try(s.choices[i].schema, [x EXCEPT !.check = "lax"], r1.st)
      retry == Retry(s, x, {})
  IN IF tag.k = "none" THEN
        UnionTry(s, x, IF x.check = "none" THEN Register(x, Warn("Defaulting to left to right union serialization - failed to get discriminator value for tagged union serialization", "", TypeName(x.H, v)), tag.st) ELSE tag.st, Try)
     ELSE IF i = 0 THEN UnionTry(s, x, tag.st, Try)
     ELSE IF r1.k = "ok" THEN [k |-> "some", r |-> r1]
     ELSE IF retry THEN (IF r2.k = "ok" THEN [k |-> "some", r |-> r2] ELSE UnionTry(s, x, r2.st, Try))
     ELSE UnionTry(s, x, r1.st, Try)
SUnion(s, v, f, x, st) ==
  LET try(sc, xx, s2) == S(sc, v, f, [xx EXCEPT !.serde = FALSE], s2)
      u == IF s.type = "union" THEN UnionTry(s, x, st, try) ELSE TaggedTry(s, v, x, st, try)
  IN CASE u.k = "some" -> IF x.serde THEN Inf(u.r.v, NF, x, u.r.st) ELSE u.r
       [] u.k = "none" -> Inf(v, f, x, u.st)
       [] OTHER -> IF x.serde THEN SExc(SerErr, u.r.st) ELSE u.r
KUnion(s, key, x, st) ==
  LET try(sc, xx, s2) == K(sc, key, xx, s2)
      u == IF s.type = "union" THEN UnionTry(s, x, st, try) ELSE TaggedTry(s, key, x, st, try)
  IN CASE u.k = "some" -> u.r [] u.k = "none" -> IK(key, x, u.st) [] OTHER -> u.r

(********************************** fields **********************************)
ByAlias(x) == IF x.ba # "none" THEN x.ba = "true" ELSE Opt(x.bcfg, "serialize_by_alias", FALSE)
(* the default a field is compared with: [k: none / some / exc] *)
DefaultFor(s0, st) == LET s == SNorm(s0) IN
  IF IsFnSer(s) \/ s.type # "default" THEN [k |-> "none", st |-> st]
  ELSE IF Has(s, "default") THEN [k |-> "some", v |-> s.default, st |-> st]
  ELSE IF ~Has(s, "default_factory") \/ Opt(s.default_factory, "data", FALSE) THEN [k |-> "none", st |-> st]
  ELSE LET g == s.default_factory st2 == SNote(g.f, <<>>, [n |-> 0], st) IN
       CASE g.b = "new_list" -> [k |-> "some", v |-> List(<<>>), st |-> st2]
         [] g.b = "const" -> [k |-> "some", v |-> g.v, st |-> st2]
         [] g.b = "id" -> [k |-> "some", v |-> None, st |-> st2]
         [] g.b = "wrap_list" -> [k |-> "some", v |-> List(<<None>>), st |-> st2]
         [] OTHER -> [k |-> "exc", c |-> RawCls(g), st |-> st2]
Required(s, f) == IF s.type = "typed-dict" THEN Opt(f, "required", Opt(s, "total", TRUE)) ELSE TRUE
NReq(s) == Cardinality({i \in DOMAIN s.fields : Required(s, s.fields[i])})
ModelType(x) == IF x.model.t = "undef" THEN "" ELSE TypeName(x.H, x.model)
(* the declared fields of d, in the order of d; x.model is set *)
FieldsLoop(s, d, allow, f, x, st) ==
  LET one(a, i) ==
        LET key == d[i][1] val == d[i][2]
            fi == IndexWhere(s.fields, LAMBDA g : g.name = Plain(key).s)
            fx == [x EXCEPT !.fname = Plain(key).s]
            nf == Filt(x.H, key, NoFilter, f)
            cnt(b) == IF fi > 0 /\ Required(s, s.fields[fi]) THEN [b EXCEPT !.used = @ + 1] ELSE b
        IN IF ~StrLike(Plain(key)) THEN Fail(a, SExc("TypeError", a.st))
           ELSE IF x.en /\ Deref(x.H, val).t = "none" THEN cnt(a)
           ELSE IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
           ELSE IF nf.k = "omit" THEN a
           ELSE IF fi > 0 THEN
                LET g == s.fields[fi]
                    df == IF x.ed THEN DefaultFor(g.schema, a.st) ELSE [k |-> "none", st |-> a.st]
                    ok == IF ByAlias(x) THEN Str(Opt(g, "serialization_alias", g.name)) ELSE Str(g.name)
                IN IF Opt(g, "serialization_exclude", FALSE) THEN cnt(a)
                   ELSE IF df.k = "exc" THEN Fail(a, SExc(df.c, df.st))
                   ELSE IF df.k = "some" /\ PyEq(x.H, val, df.v) THEN cnt([a EXCEPT !.st = df.st])
                   ELSE cnt(Put(x, a, ok, S(g.schema, val, nf.f, fx, df.st)))
           ELSE IF allow THEN
                LET kr == IF x.serde THEN IK(key, fx, a.st) ELSE SOk(key, a.st) IN
                Put(x, a, kr.v, IF Has(s, "extras_schema") THEN S(s.extras_schema, val, nf.f, fx, kr.st) ELSE Inf(val, nf.f, fx, kr.st))
           ELSE IF ~x.serde /\ x.check = "strict" THEN Fail(a, SUnx(Warn("Unexpected field `" \o PyStr(x.H, key) \o "`", ModelType(x), ""), a.st))
           ELSE a
      a == FoldN(LAMBDA a, i : IF a.stop THEN a ELSE one(a, i),
                 [stop |-> FALSE, r |-> SOk(None, st), out |-> <<>>, st |-> st, used |-> 0], Len(d))
  IN IF a.stop THEN a
     ELSE IF ~x.serde /\ x.check # "none" /\ ~(x.ed \/ x.eu \/ x.en \/ f.e.t # "undef") /\ NReq(s) > a.used
     THEN Fail(a, SUnx(Warn("Expected " \o ToString(NReq(s)) \o " fields but got " \o ToString(a.used), ModelType(x), TypeName(x.H, x.model)), a.st))
     ELSE a
Computed(s, a0, f, x, st0) ==
  LET cfs == Opt(s, "computed_fields", <<>>)
      one(a, i) ==
        LET c == cfs[i] nf == Filt(x.H, Str(c.property_name), NoFilter, f)
            g == AttrOf(x.H, x.model, c.property_name)
            k == IF ByAlias(x) THEN Opt(c, "alias", c.property_name) ELSE c.property_name
        IN IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
           ELSE IF nf.k = "omit" THEN a
           ELSE IF g.k = "exc" THEN Fail(a, SExc(g.c, a.st))
           ELSE IF x.en /\ Deref(x.H, g.v).t = "none" THEN a
           ELSE Put(x, a, Str(k), S(c.return_schema, g.v, nf.f, [x EXCEPT !.fname = c.property_name], a.st))
  IN IF x.rt THEN a0 ELSE FoldN(LAMBDA a, i : IF a.stop THEN a ELSE one(a, i), a0, Len(cfs))
NextDuck(d) == CASE d = "S" -> "S" [] d = "N" -> "I" [] OTHER -> "N"
ExtraMode(s, x) == IF Has(s, "extra_behavior") THEN s.extra_behavior ELSE Opt(x.bcfg, "extra_fields_behavior", "ignore")
SFields(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0)
      mx == IF x.model.t = "undef" THEN [x EXCEPT !.model = v0] ELSE x
      allow == ExtraMode(s, x) = "allow"
      pair == s.type = "model-fields" /\ allow
      okv == IF pair THEN v.t = "tuple" /\ Len(v.l) = 2 /\ Deref(x.H, v.l[1]).t = "dict" /\ Deref(x.H, v.l[2]).t \in {"dict", "none"} ELSE v.t = "dict"
      d == IF pair THEN Deref(x.H, v.l[1]).d ELSE v.d
      ex == IF pair /\ Deref(x.H, v.l[2]).t = "dict" THEN Deref(x.H, v.l[2]).d ELSE <<>>
      a1 == FieldsLoop(s, d, s.type = "typed-dict" /\ allow, f, mx, st)
      extra(a, i) ==
        LET nf == Filt(x.H, ex[i][1], NoFilter, f) IN
        IF x.en /\ Deref(x.H, ex[i][2]).t = "none" THEN a
        ELSE IF nf.k = "exc" THEN Fail(a, SExc(nf.c, a.st))
        ELSE IF nf.k = "omit" THEN a
        ELSE Put(x, a, ex[i][1], IF Has(s, "extras_schema") THEN S(s.extras_schema, ex[i][2], nf.f, x, a.st) ELSE Inf(ex[i][2], nf.f, x, a.st))
      a2 == FoldN(LAMBDA a, i : IF a.stop THEN a ELSE extra(a, i), a1, Len(ex))
      a3 == IF a2.stop THEN a2 ELSE Computed(s, a2, f, mx, a2.st)
  IN IF x.serde /\ ~okv THEN Fb(s, v0, f, x, st)
     ELSE IF x.model.t = "undef" /\ NextDuck(x.duck) = "I" THEN Inf(v0, f, [mx EXCEPT !.duck = "I"], st)
     ELSE IF ~okv THEN Fb(s, v0, f, x, st)
     ELSE Done(a3, Dict(a3.out))
SModel(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0)
      mx == [x EXCEPT !.model = v0, !.duck = NextDuck(@)]
      inx == [mx EXCEPT !.bcfg = Opt(s, "config", <<>>)]
      da == DictAttr(x.H, v0)
      allow == CASE x.check = "strict" -> ClassOf(x.H, v0) = s.cls [] x.check = "lax" -> IsInst(x.H, v0, s.cls) [] OTHER -> da.k = "some"
      isModel == v.t = "inst" /\ v.c \notin DataClasses /\ v.c \notin {"AttrObj", "AttrSub", "AttrBad"}
      has == ExtraMode(s, inx) = "allow"
      d == IF x.eu THEN Filter(da.d, LAMBDA p : p[1].s \in Range(v.fs)) ELSE da.d
      root == AttrOf(x.H, v0, "root")
  IN IF mx.duck = "I" THEN Inf(v0, f, mx, st)
     ELSE IF Opt(s, "root_model", FALSE) THEN
          (IF root.k = "exc" THEN (IF x.check # "none" /\ ~x.serde THEN SUnx(Warn("", "", ""), st) ELSE SExc(root.c, st))
           ELSE S(s.schema, root.v, f, [inx EXCEPT !.fname = "root"], st))
     ELSE IF ~allow THEN LET o == OnFallback(s.cls, v0, mx, st) IN (IF o.go THEN Inf(v0, f, mx, o.st) ELSE o.r)
     ELSE IF x.eu /\ ~(isModel /\ v.hf) THEN SExc("AttributeError", st)
     ELSE IF has /\ ~isModel THEN SExc("AttributeError", st)
     ELSE S(s.schema, IF has THEN Tuple(<<Dict(d), IF v.hx THEN Dict(v.x) ELSE None>>) ELSE Dict(d), f, inx, st)
SDataclass(s, v0, f, x, st) ==
  LET v == Deref(x.H, v0)
      mx == [x EXCEPT !.model = v0, !.duck = NextDuck(@)]
      inx == [mx EXCEPT !.bcfg = Opt(s, "config", <<>>)]
      allow == CASE x.check = "strict" -> ClassOf(x.H, v0) = s.cls [] x.check = "lax" -> IsInst(x.H, v0, s.cls)
                 [] OTHER -> v.t = "inst" /\ v.c \in DataClasses
      get(n) == GetAttr(x.H, v0, n)
      miss == IndexWhere(s.fields, LAMBDA n : get(n).k = "none")
      known == SubSeq(s.fields, 1, IF miss = 0 THEN Len(s.fields) ELSE miss - 1)
      d == [i \in DOMAIN known |-> <<Str(known[i]), get(known[i]).v>>]
      inner == SNorm(s.schema)
      simple == ~IsFnSer(inner) /\ inner.type = "dataclass-args"
      a0 == FieldsLoop(inner, d, FALSE, f, inx, st)
      a1 == IF a0.stop /\ a0.r.k = "unexp" /\ miss > 0 THEN [a0 EXCEPT !.r = IF HasPrefix(@.e.m, "Expected ") THEN SExc("AttributeError", @.st) ELSE @]
            ELSE IF ~a0.stop /\ miss > 0 THEN Fail(a0, SExc("AttributeError", a0.st)) ELSE a0
      a2 == IF a1.stop THEN a1 ELSE Computed(inner, a1, f, [inx EXCEPT !.duck = x.duck], a1.st)
  IN IF mx.duck = "I" THEN Inf(v0, f, mx, st)
     ELSE IF ~allow THEN LET o == OnFallback(s.cls, v0, mx, st) IN (IF o.go THEN Inf(v0, f, mx, o.st) ELSE o.r)
     ELSE IF simple THEN Done(a2, Dict(a2.out))
     ELSE IF miss > 0 THEN SExc("AttributeError", st)
     ELSE S(s.schema, Dict(d), f, inx, st)

(********************************* functions ********************************)
SInfo(ser, f, x) ==
  IF ~Opt(ser, "info_arg", FALSE) THEN [n |-> 0]
  ELSE [n |-> 2, mode |-> x.mode, inc |-> IF f.i.t = "none" THEN Undefined ELSE f.i, exc |-> IF f.e.t = "none" THEN Undefined ELSE f.e, ctx |-> x.ctx, ba |-> x.ba, eu |-> x.eu, ed |-> x.ed, en |-> x.en, rt |-> x.rt,
        any |-> x.duck # "S", fname |-> IF Opt(ser, "is_field_serializer", FALSE) THEN x.fname ELSE ""]
(* what emitting the collected warnings does *)
Emit(x, r) ==
  IF r.k # "ok" \/ Len(r.st.w) = 0 THEN r
  ELSE IF x.wm = "error" THEN SExc(SerErr, r.st)
  ELSE [r EXCEPT !.st.em = Append(@, r.st.w)]
B(op, k) == Opt(op, k, FALSE)
SCtx(case, op, H) ==
  LET mod == op.op \in {"m_to_json", "m_to_jsonable"}
      cfg == IF mod THEN [ser_json_inf_nan |-> Opt(op, "inf_nan_mode", "constants"), ser_json_bytes |-> Opt(op, "bytes_mode", "utf8"), ser_json_timedelta |-> Opt(op, "timedelta_mode", "iso8601")]
             ELSE case.cfg[op.s]
  IN [H |-> H, mode |-> IF op.op = "to_python" THEN Opt(op, "mode", "python") ELSE "json", serde |-> op.op \in {"to_json", "m_to_json"},
      check |-> "none", ba |-> IF mod THEN Opt(op, "by_alias", "true") ELSE Opt(op, "by_alias", "none"),
      eu |-> B(op, "eu"), ed |-> B(op, "ed"), en |-> B(op, "en"), rt |-> B(op, "rt"),
      wm |-> IF mod THEN "none" ELSE Opt(op, "warnings", "warn"), fb |-> Opt(op, "fb", [f |-> ""]), su |-> B(op, "su"),
      duck |-> IF B(op, "as_any") THEN "N" ELSE "S", ctx |-> Opt(op, "ctx", Undefined), model |-> Undefined, fname |-> "", guard |-> <<>>,
      icfg |-> cfg, bcfg |-> cfg, case |-> case, nest |-> 0, cfgs |-> case.cfg, schemas |-> case.schemas, defs |-> <<>>,
      att |-> Flat([i \in DOMAIN case.schemas |-> IF Has(case.schemas[i], "attach") THEN << [c |-> case.schemas[i].attach, s |-> i] >> ELSE <<>>])]
SFilters(op) == LET o(k) == LET v == Opt(op, k, Undefined) IN IF v.t = "none" THEN Undefined ELSE v IN [i |-> o("inc"), e |-> o("exc")]
NestCtx(x, op) == [SCtx(x.case, op, x.H) EXCEPT !.nest = 1]
(* the handler given to a wrap serializer: its warnings are a copy *)
SHandle(s, v, key, f, x, st) ==
  LET px == [x EXCEPT !.serde = FALSE]
      nf == IF key.t = "undef" THEN [k |-> "go", f |-> f]
            ELSE IF key.t = "int" /\ key.i >= 0 THEN FiltIdx(x.H, key.i, -1, NoFilter, f)
            ELSE Filt(x.H, key, NoFilter, f)
  IN IF nf.k = "exc" THEN SExc(nf.c, st)
     ELSE IF nf.k = "omit" THEN SExc("PydanticOmit", st)
     ELSE Emit(px, S(FnInner(s), v, nf.f, px, st))
(* (a serializer's function which calls the library again) *)
SAgain(g, x, st) ==
  IF x.nest = 1 THEN st
  ELSE LET op == g.re
           rs == LET r0 == Emit(NestCtx(x, op), S(x.case.schemas[op.s].v, op.x, SFilters(op), NestCtx(x, op), St0)) IN
                 [k |-> IF r0.k = "ok" THEN "ok" ELSE "exc", v |-> r0.v,
                  exc |-> IF op.op = "to_json" THEN SerErr ELSE IF r0.k = "unexp" THEN "PydanticSerializationUnexpectedValue" ELSE r0.c, log |-> r0.st.log]
           c2 == [Ctx0(x.case, op, x.H) EXCEPT !.nest = 1]
           r == IF op.op \in {"to_python", "to_json"} THEN rs ELSE V(x.case.schemas[op.s].v, op.x, c2)
           lg == r.log \o << [f |-> g.f \o ":re", a |-> <<Mark(r)>>, i |-> [n |-> 0]] >>
       IN [st EXCEPT !.log = @ \o lg]
(* the function's own outcome *)
SFnCall(s, v, f, x, st) ==
  LET ser == s.serialization g == ser.function
      isf == Opt(ser, "is_field_serializer", FALSE)
      st2 == SNote(g.f, IF isf THEN <<x.model, v>> ELSE <<v>>, SInfo(ser, f, x), st)
      h(w, key, s3) == SHandle(s, w, key, f, x, s3)
      back(r) == [r EXCEPT !.st.w = st.w]  \* the caller's warnings are untouched
      wrap == ser.type = "function-wrap"
  IN IF isf /\ x.model.t = "undef" THEN SExc("RuntimeError", st)
     ELSE IF isf /\ Opt(ser, "info_arg", FALSE) /\ x.fname = "" THEN SExc("RuntimeError", st)
     ELSE CASE g.b = "id" -> SOk(v, st2)
            [] g.b = "reenter" -> IF wrap THEN back(h(v, Undefined, SAgain(g, x, st2))) ELSE SOk(v, SAgain(g, x, st2))
            [] g.b = "const" -> SOk(g.v, st2)
            [] g.b = "wrap_list" -> SOk(List(<<v>>), st2)
            [] g.b = "raise_unexp" -> SUnx(Warn("boom", "", ""), st2)
            [] g.b = "raise_ser" -> SExc(SerErr, st2)
            [] g.b = "call" -> back(h(v, Undefined, st2))
            [] g.b = "call_key" -> back(h(v, g.key, st2))
            [] g.b = "call_const" -> back(h(g.v, Undefined, st2))
            [] g.b = "call_list" -> LET r == back(h(v, Undefined, st2)) IN IF r.k = "ok" THEN [r EXCEPT !.v = List(<<@>>)] ELSE r
            [] g.b = "catch" -> LET r == back(h(v, Undefined, st2)) IN IF r.k = "ok" THEN r ELSE SOk(g.v, r.st)
            [] g.b = "twice" -> LET r == h(v, Undefined, st2) IN IF r.k # "ok" THEN back(r) ELSE back(h(v, Undefined, r.st))
            [] OTHER -> SExc("ValueError", st2)
OnError(r, x, Go2(_)) ==
  IF r.k = "unexp" THEN (IF x.check # "none" THEN (IF x.serde THEN SExc(SerErr, r.st) ELSE r) ELSE Go2(Register(x, r.e, r.st)))
  ELSE SExc(SerErr, r.st)
SFunction(s, v, f, x, st) ==
  LET ser == s.serialization r == SFnCall(s, v, f, x, st) IN
  IF ~Used(Opt(ser, "when_used", "always"), v, x)
  THEN S(IF ser.type = "function-wrap" THEN FnInner(s) ELSE Bare1(s), v, f, x, st)
  ELSE IF r.k = "ok" THEN S(Opt(ser, "return_schema", AnyS), r.v, NF, x, r.st)
  ELSE OnError(r, x, LAMBDA s2 : Inf(v, f, x, s2))
KFunction(s, key, x, st) ==
  LET ser == s.serialization r == SFnCall(s, key, NF, x, st) IN
  IF ~Used(Opt(ser, "when_used", "always"), key, x)
  THEN K(IF ser.type = "function-wrap" THEN FnInner(s) ELSE Bare1(s), key, x, st)
  ELSE IF r.k = "ok" THEN K(Opt(ser, "return_schema", AnyS), r.v, x, r.st)
  ELSE OnError(r, [x EXCEPT !.serde = FALSE], LAMBDA s2 : IK(key, x, s2))

(******************************** the function ******************************)
AddDefs(s, x) == [x EXCEPT !.defs = [i \in DOMAIN s.definitions |-> [ref |-> s.definitions[i].ref, s |-> s.definitions[i], bcfg |-> x.bcfg]] \o @]
RoundTrip(s, v, f, x, st) ==   \* the JSON text of the inner value
  LET r == S(Opt(s, "schema", AnyS), v, f, [x EXCEPT !.serde = TRUE], st) IN
  CASE r.k = "ok" -> SOk(JStr(r.v), r.st)
    [] r.k = "unexp" -> SUnx(Warn("", "", ""), r.st)
    [] OTHER -> SExc(SerErr, r.st)
S(s0, v0, f, x, st) ==
  LET s == SNorm(s0) v == Deref(x.H, v0) IN
  IF IsFnSer(s) THEN SFunction(s, v0, f, x, st)
  ELSE CASE s.type = "any" -> Inf(v0, f, x, st)
    [] s.type = "none" -> IF v.t = "none" THEN SOk(None, st) ELSE Fb(s, v0, f, x, st)
    [] s.type \in {"int", "float", "bool"} -> SNumber(s, v0, f, x, st)
    [] s.type = "str" -> IF ~IsStr(x.H, v) THEN Fb(s, v0, f, x, st) ELSE SOk(IF Json(x) THEN AsStr(v) ELSE v0, st)
    [] s.type = "bytes" -> IF ~BytesLike(v) THEN Fb(s, v0, f, x, st) ELSE IF Json(x) THEN BytesJson(v, x.bcfg, x, st) ELSE SOk(v0, st)
    [] s.type = "decimal" -> IF v.t # "dec" THEN Fb(s, v0, f, x, st) ELSE Inf(v0, f, x, st)
    [] s.type \in TimeTypes -> IF v.t # TemporalTag(s) THEN (IF s.type = "timedelta" /\ ~Json(x) THEN Inf(v0, f, x, st) ELSE Fb(s, v0, f, x, st))
                               ELSE SOk(IF Json(x) THEN TemporalJson(v, x.bcfg) ELSE v0, st)
    [] s.type = "nullable" -> IF v.t = "none" THEN SOk(None, st) ELSE S(s.schema, v0, f, x, st)
    [] s.type = "default" -> S(s.schema, v0, f, x, st)
    [] s.type = "literal" ->
         LET c == LitCheck(s, v0, x) IN
         CASE c \in {"int", "str"} -> SOk(IF Json(x) THEN (IF c = "int" THEN AsInt(v) ELSE AsStr(v)) ELSE v0, st)
           [] c = "ok" -> Inf(v0, f, x, st)
           [] OTHER -> Fb(s, v0, f, x, st)
    [] s.type = "enum" ->
         IF ~(v.t = "enum" /\ v.c = s.cls) THEN Fb(s, v0, f, x, st)
         ELSE IF ~Json(x) THEN SOk(v0, st)
         ELSE IF EnumBase(v) # "none" THEN S([type |-> EnumBase(v)], EnumVal(v), f, x, st) ELSE Inf(EnumVal(v), f, x, st)
    [] s.type = "list" -> SSeq(s, v0, f, x, st)
    [] s.type \in {"set", "frozenset"} -> SSet(s, v0, f, x, st)
    [] s.type = "tuple" -> STuple(s, v0, f, x, st)
    [] s.type = "dict" -> SDict(s, v0, f, x, st)
    [] s.type = "generator" -> SGen(s, v0, f, x, st)
    [] s.type \in {"union", "tagged-union"} -> SUnion(s, v0, f, x, st)
    [] s.type \in {"model-fields", "typed-dict", "dataclass-args"} -> SFields(s, v0, f, IF s.type = "typed-dict" /\ Has(s, "config") THEN [x EXCEPT !.bcfg = s.config] ELSE x, st)
    [] s.type = "model" -> SModel(s, v0, f, x, st)
    [] s.type = "dataclass" -> SDataclass(s, v0, f, x, st)
    [] s.type = "json" -> IF x.rt THEN RoundTrip(s, v0, f, x, st) ELSE S(Opt(s, "schema", AnyS), v0, f, x, st)
    [] s.type = "json-or-python" -> S(IF Json(x) THEN s.json_schema ELSE s.python_schema, v0, f, x, st)
    [] s.type \in {"format", "to-string"} ->
         LET w == Opt(s, "when_used", "json-unless-none") IN
         IF x.serde THEN (IF UsedJson(w, v0, x) THEN Formats(s, v0, x, st) ELSE SOk(None, st))
         ELSE IF Used(w, v0, x) THEN Formats(s, v0, x, st) ELSE SOk(v0, st)
    [] s.type = "definitions" -> S(s.schema, v0, f, AddDefs(s, x), st)
    [] s.type = "definition-ref" ->
         LET d == DefOf(x, s.schema_ref) IN
         IF TooDeep(x) \/ (Identity(v0) /\ Guarded(x, v0, d.ref)) THEN SExc("ValueError", st)
         ELSE S(d.s, v0, f, [Enter(x, v0, d.ref) EXCEPT !.bcfg = d.bcfg], st)
K(s0, key, x0, st) ==
  LET s == SNorm(s0) v == Deref(x0.H, key) x == [x0 EXCEPT !.serde = FALSE] IN
  IF IsFnSer(s) THEN KFunction(s, key, x, st)
  ELSE CASE s.type = "any" -> IK(key, x, st)
    [] s.type = "none" -> IF v.t = "none" THEN SOk(Str("None"), st) ELSE FbKey(s, key, x, st)
    [] s.type \in {"int", "float"} -> IF IsTy(x.H, v, s.type) = "no" THEN FbKey(s, key, x, st) ELSE SOk(StrOf(x.H, v), st)
    [] s.type = "bool" -> IF v.t # "bool" THEN FbKey(s, key, x, st) ELSE SOk(Str(IF v.b THEN "true" ELSE "false"), st)
    [] s.type = "str" -> IF ~IsStr(x.H, v) THEN FbKey(s, key, x, st) ELSE SOk(AsStr(v), st)
    [] s.type = "bytes" -> IF ~BytesLike(v) THEN FbKey(s, key, x, st) ELSE BytesJson(v, x.bcfg, x, st)
    [] s.type = "decimal" -> IF v.t # "dec" THEN FbKey(s, key, x, st) ELSE IK(key, x, st)
    [] s.type \in TimeTypes -> IF v.t # TemporalTag(s) THEN FbKey(s, key, x, st) ELSE SOk(TemporalKey(v, x.bcfg), st)
    [] s.type = "nullable" -> IF v.t = "none" THEN SOk(Str("None"), st) ELSE K(s.schema, key, x, st)
    [] s.type = "default" -> K(s.schema, key, x, st)
    [] s.type = "literal" ->
         LET c == LitCheck(s, key, x) IN
         CASE c = "int" -> SOk(Str(NumStr(AsInt(v))), st) [] c = "str" -> SOk(AsStr(v), st) [] c = "ok" -> IK(key, x, st) [] OTHER -> FbKey(s, key, x, st)
    [] s.type = "enum" ->
         IF ~(v.t = "enum" /\ v.c = s.cls) THEN FbKey(s, key, x, st)
         ELSE IF EnumBase(v) # "none" THEN K([type |-> EnumBase(v)], EnumVal(v), x, st) ELSE IK(EnumVal(v), x, st)
    [] s.type \in {"list", "set", "frozenset", "dict", "generator", "model-fields", "typed-dict", "dataclass-args"} -> NoKey(s, key, x, st)
    [] s.type = "tuple" ->
         IF v.t # "tuple" THEN FbKey(s, key, x, st)
         ELSE LET a == TupleLoop(s, v, NF, x, st, LAMBDA i, sc, nf, s2 : K(sc, v.l[i], x, s2)) IN
              IF a.stop THEN a.r ELSE IF \E i \in DOMAIN a.out : a.out[i].t # "str" THEN SOk(Wild, a.st)
              ELSE SOk(Str(Join([i \in DOMAIN a.out |-> a.out[i].s], ",")), a.st)
    [] s.type \in {"union", "tagged-union"} -> KUnion(s, key, x, st)
    [] s.type \in {"model", "dataclass"} ->
         LET allow == CASE x.check = "strict" -> ClassOf(x.H, key) = s.cls [] x.check = "lax" -> IsInst(x.H, key, s.cls)
                        [] s.type = "model" -> DictAttr(x.H, key).k = "some" [] OTHER -> v.t = "inst" /\ v.c \in DataClasses IN
         IF allow THEN (IF Hashable(x.H, v) THEN SOk(IF v.t \in {"strsub"} THEN Str(v.s) ELSE Wild, st) ELSE SExc("TypeError", st))
         ELSE FbKey(s, key, x, st)
    [] s.type = "json" -> IF x.rt THEN RoundTrip(s, key, NF, x, st) ELSE IK(key, x, st)
    [] s.type = "json-or-python" -> K(s.json_schema, key, x, st)
    [] s.type \in {"format", "to-string"} ->
         IF UsedJson(Opt(s, "when_used", "json-unless-none"), key, x) THEN Formats(s, key, x, st) ELSE SOk(Str("None"), st)
    [] s.type = "definitions" -> K(s.schema, key, AddDefs(s, x), st)
    [] s.type = "definition-ref" -> K(DefOf(x, s.schema_ref).s, key, [x EXCEPT !.bcfg = DefOf(x, s.schema_ref).bcfg], st)

(******************************** operations ********************************)
(* the outcome of a call: result, emitted warnings, log *)
SerOp(case, op, H) ==
  LET x == SCtx(case, op, H)
      s == IF op.op \in {"m_to_json", "m_to_jsonable"} THEN AnyS ELSE case.schemas[op.s].v
      r0 == S(s, op.x, SFilters(op), x, St0)
      r == Emit(x, r0)
  IN [k |-> IF r.k = "ok" THEN "ok" ELSE "exc",
      v |-> r.v, exc |-> IF x.serde THEN SerErr ELSE IF r.k = "unexp" THEN "PydanticSerializationUnexpectedValue" ELSE r.c,
      em |-> r.st.em, log |-> r.st.log, hp |-> <<>>, errs |-> <<>>]
SerOps == {"to_python", "to_json", "m_to_json", "m_to_jsonable"}
=============================================================================
