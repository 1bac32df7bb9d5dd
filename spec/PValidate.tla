------------------------------ MODULE PValidate ------------------------------
(* The validation function: what every schema makes of an input value, in a   *)
(* given context.  V(s, x, c) is total: it yields a value, an ordered list of *)
(* line errors, one of the control outcomes Omit / UseDefault, or an exception *)
(* that must reach the caller; with it go the user functions entered, how     *)
(* exact the match was, how many fields were set and which instances change.  *)
EXTENDS PTime

RECURSIVE V(_, _, _)        \* schema, input, context
RECURSIVE VA(_, _, _, _, _) \* schema, object, field, value, context: assignment
RECURSIVE DefaultOf(_, _, _)\* schema, outer location, context
RECURSIVE Nm(_)             \* the name a schema goes by in locations

(********************************* results **********************************)
Eff0 == OkV(None, Exact)
FsAdd(a, b) == IF b < 0 THEN a ELSE IF a < 0 THEN b ELSE a + b
(* r, after everything a has already done *)
With(a, r) == [r EXCEPT !.ex = Min2(a.ex, @), !.fs = FsAdd(a.fs, @), !.log = a.log \o @, !.hp = a.hp \o @]
(* the effects of a, then those of r *)
Acc(a, r) == [a EXCEPT !.ex = Min2(@, r.ex), !.fs = FsAdd(@, r.fs), !.log = @ \o r.log, !.hp = @ \o r.hp]
(* only the visible events of a: what a failed alternative leaves behind *)
Bare(r) == [r EXCEPT !.log = <<>>, !.hp = <<>>]  \* a result whose events are accounted for already
Seen(a) == [Eff0 EXCEPT !.log = a.log, !.hp = a.hp]
Floor(r, e) == [r EXCEPT !.ex = Min2(@, e)]
ErrsV(es) == Res("errs", None, es, "", Exact, -1, <<>>)
ExcV(cls) == Res("exc", None, <<>>, cls, Exact, -1, <<>>)
OmitV == Res("omit", None, <<>>, "", Exact, -1, <<>>)
UseDefV == Res("usedefault", None, <<>>, "", Exact, -1, <<>>)
LocS(s) == [s |-> s]
LocN(n) == [n |-> n]
LocWild == [w |-> TRUE]
WithLoc(es, l) == [i \in DOMAIN es |-> [es[i] EXCEPT !.loc = l \o @]]
OuterLoc(r, l) == IF r.k = "errs" THEN [r EXCEPT !.errs = WithLoc(@, l)] ELSE r
Line(ty, x, ctx, loc) == [ty |-> ty, loc |-> loc, inp |-> x, ctx |-> ctx]
LocOfKey(H, k0) ==
  LET k == Eff(Deref(H, k0)) IN
  IF StrLike(k) THEN <<LocS(k.s)>>
  ELSE IF k.t \in {"int", "intsub"} THEN <<LocN(k.i)>>
  ELSE IF k.t = "bool" THEN <<LocN(IF k.b THEN 1 ELSE 0)>>
  ELSE <<LocWild>>
(* what python sees of a JSON value: where a key comes again the last value counts, in the first one's place *)
RECURSIVE Once(_)
Once(x) ==
  IF Has(x, "d") /\ x.t = "dict" THEN LET RECURSIVE go(_, _)
                             go(i, acc) == IF i > Len(x.d) THEN acc
                                           ELSE LET v == Once(x.d[i][2]) S == {j \in DOMAIN acc : acc[j][1] = x.d[i][1]} IN
                                                go(i + 1, IF S = {} THEN Append(acc, <<x.d[i][1], v>>) ELSE [acc EXCEPT ![CHOOSE j \in S : TRUE] = <<@[1], v>>])
                         IN [x EXCEPT !.d = go(1, <<>>)]
  ELSE IF Has(x, "d") /\ x.t \in {"inst", "map"} THEN LET y == [x EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], Once(@[i][2])>>]] IN
                              IF Has(y, "x") THEN [y EXCEPT !.x = [i \in DOMAIN @ |-> <<@[i][1], Once(@[i][2])>>]] ELSE y
  ELSE IF x.t \in {"list", "tuple"} THEN [x EXCEPT !.l = [i \in DOMAIN @ |-> Once(@[i])]]
  ELSE IF x.t = "args" THEN [x EXCEPT !.l = [i \in DOMAIN @ |-> Once(@[i])], !.d = [i \in DOMAIN @ |-> <<@[i][1], Once(@[i][2])>>]]
  ELSE x
OnceR(r) == LET v == [r EXCEPT !.v = Once(@), !.log = [i \in DOMAIN @ |->
                      LET e == [@[i] EXCEPT !.a = [j \in DOMAIN @ |-> Once(@[j])]] IN
                      IF Has(e.i, "data") THEN [e EXCEPT !.i.data = Once(@)] ELSE e]] IN
            IF r.k = "errs" THEN [v EXCEPT !.errs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.inp = Once(@), !.ctx = [j \in DOMAIN @ |-> <<@[j][1], Once(@[j][2])>>]]]] ELSE v
ToObj(x, c) == IF c.mode = "json" /\ c.dup THEN Once(x) ELSE x
Py(c) == [c EXCEPT !.mode = "python"]
Off(c) == [c EXCEPT !.partial = "off"]
Cfg(c, s) == [c EXCEPT !.cfg = IF Has(s, "config") THEN s.config ELSE <<>>]
(* string-mode values are strings or dictionaries, anything else never gets  *)
(* as far as a validator                                                      *)
StrBad(x, c) == c.mode = "strings" /\ ~(StrLike(Eff(Deref(c.H, x))) \/ Deref(c.H, x).t = "dict")

(***************************** generic folding ******************************)
RECURSIVE FoldN(_, _, _)
FoldN(Op(_, _), base, n) == IF n = 0 THEN base ELSE Op(FoldN(Op, base, n - 1), n)
(* a loop's state: effects, output, errors, stop (a result to return at once) *)
Go == [k |-> "go"]
Loop0(out) == [a |-> Eff0, out |-> out, errs |-> <<>>, stop |-> Go]

(******************************** python facts ******************************)
FindKey(H, d, k) == IndexWhere(d, LAMBDA p : PyEq(H, p[1], k))
PutKey(H, d, k, v) ==
  LET i == FindKey(H, d, k) IN
  IF i = 0 THEN Append(d, <<k, v>>) ELSE [d EXCEPT ![i] = <<@[1], v>>]
DelKey(H, d, k) == Filter(d, LAMBDA p : ~PyEq(H, p[1], k))
RECURSIVE Merge(_, _, _)
Merge(H, d, e) == IF Len(e) = 0 THEN d ELSE Merge(H, PutKey(H, d, e[1][1], e[1][2]), Tail(e))
RECURSIVE DeepCopy(_, _)
DeepCopy(H, v0) ==
  LET v == Deref(H, v0) IN
  CASE v.t \in {"list", "tuple", "set", "frozenset"} -> [v EXCEPT !.l = [i \in DOMAIN @ |-> DeepCopy(H, @[i])]]
    [] v.t = "dict" -> [v EXCEPT !.d = [i \in DOMAIN @ |-> <<DeepCopy(H, @[i][1]), DeepCopy(H, @[i][2])>>]]
    [] OTHER -> v
Bases == [MA1 |-> {"MA"}, DA1 |-> {"DA"}, AttrSub |-> {"AttrObj"}, AttrBad |-> {"AttrObj"}]
SubClass(a, b) == a = b \/ b = "object" \/ (a \in DOMAIN Bases /\ b \in Bases[a])
                  \/ (a = "bool" /\ b = "int")
                  \/ <<a, b>> \in {<<"StrSub","str">>, <<"IntSub","int">>, <<"FloatSub","float">>, <<"BytesSub","bytes">>,
                                   <<"ListSub","list">>, <<"DictSub","dict">>, <<"EStr","str">>, <<"EInt","int">>, <<"EFlo","float">>}
ClassOf(H, x) ==
  LET v == Deref(H, x) IN
  CASE v.t = "none" -> "NoneType" [] v.t = "bool" -> "bool" [] v.t \in {"int", "big"} -> "int"
    [] v.t \in {"float", "fbig", "fopq", "fsp"} -> "float" [] v.t = "str" -> "str" [] v.t = "bytes" -> "bytes"
    [] v.t = "strsub" -> "StrSub" [] v.t = "intsub" -> "IntSub" [] v.t = "floatsub" -> "FloatSub"
    [] v.t = "bytessub" -> "BytesSub" [] v.t = "list" -> "list" [] v.t = "dict" -> "dict" [] v.t = "set" -> "set"
    [] v.t = "tuple" -> "tuple" [] v.t = "frozenset" -> "frozenset" [] v.t = "inst" -> v.c [] v.t = "enum" -> v.c
    [] v.t = "obj" -> "Opaque" [] v.t = "cls" -> "type" [] v.t = "map" -> "MyMapping"
    [] OTHER -> "?"
IsInst(H, x, cls) == SubClass(ClassOf(H, x), cls)
Quote(s) == "'" \o s \o "'"
RECURSIVE PyRepr(_, _)
PyRepr(H, v0) ==
  LET v == Deref(H, v0) IN
  CASE v.t = "none" -> "None" [] v.t = "bool" -> (IF v.b THEN "True" ELSE "False")
    [] v.t \in {"int", "big", "intsub"} -> NumStr(v)
    [] v.t \in {"float", "fbig", "fopq", "fsp"} -> FloatStr(v, FALSE)
    [] v.t = "floatsub" -> FloatStr(MkFloatQ(v.q), FALSE)
    [] v.t \in {"str", "strsub"} -> Quote(v.s) [] v.t = "bytes" -> "b" \o Quote(v.y)
    [] v.t = "cls" -> "<class '" \o v.c \o "'>"
    [] v.t = "enum" -> "<" \o v.c \o "." \o v.n \o ": " \o PyRepr(H, EnumVal(v)) \o ">"
    [] v.t = "list" -> "[" \o Join([i \in DOMAIN v.l |-> PyRepr(H, v.l[i])], ", ") \o "]"
    [] v.t = "tuple" -> "(" \o Join([i \in DOMAIN v.l |-> PyRepr(H, v.l[i])], ", ") \o (IF Len(v.l) = 1 THEN ",)" ELSE ")")
PyStr(H, v0) == LET v == Deref(H, v0) IN
  IF v.t \in {"str", "strsub"} THEN v.s
  ELSE IF v.t = "enum" THEN v.c \o "." \o v.n ELSE PyRepr(H, v)
(* the values getattr finds *)
ClassAttrs(c) ==
  CASE c \in {"DA", "DP", "DQ", "DCF"} -> << <<Str("a"), IntV(0)>>, <<Str("b"), IntV(0)>>, <<Str("c"), IntV(0)>> >>
    [] c = "DA1" -> << <<Str("a"), IntV(0)>>, <<Str("b"), IntV(0)>>, <<Str("c"), IntV(0)>>, <<Str("d"), IntV(0)>> >>
    [] c = "DB" -> << <<Str("b"), IntV(5)>> >>
    [] OTHER -> <<>>
Attrs(H, v0) == LET v == Deref(H, v0) IN IF v.t = "inst" THEN Merge(H, ClassAttrs(v.c), v.d) ELSE <<>>
Absent == [k |-> "none"]
Found(v) == [k |-> "some", v |-> v]
GetIn(H, d, k) == LET i == FindKey(H, d, k) IN IF i = 0 THEN Absent ELSE Found(d[i][2])
JGetIn(d, s) == LET S == {i \in DOMAIN d : d[i][1].s = s} IN
                IF S = {} THEN Absent ELSE Found(d[CHOOSE i \in S : \A j \in S : j <= i][2])
(* (instances of AttrBad have an attribute b that cannot be read) *)
Broken == [k |-> "fail"]
GetAttr(H, v, s) == IF s = "b" /\ Deref(H, v).t = "inst" /\ Deref(H, v).c = "AttrBad" THEN Broken ELSE GetIn(H, Attrs(H, v), Str(s))

(******************************** input shapes ******************************)
NoSeq == [ok |-> FALSE]
SeqOf(l, len, fail, ex) == [ok |-> TRUE, l |-> l, len |-> len, fail |-> fail, ex |-> ex]
SeqIn(x, c, own, st) ==
  LET v == Deref(c.H, x) IN
  IF c.mode = "python" THEN
     IF v.t = own THEN SeqOf(v.l, Len(v.l), -1, Exact)
     ELSE IF ~st /\ v.t \in {"list", "tuple", "set", "frozenset"} THEN SeqOf(v.l, Len(v.l), -1, Lax)
     ELSE IF ~st /\ v.t = "itb" THEN SeqOf(v.l, -1, v.fail, Lax)
     ELSE NoSeq
  ELSE IF c.mode = "json" /\ v.t = "list" THEN SeqOf(v.l, Len(v.l), -1, IF own = "list" THEN Exact ELSE Strict)
  ELSE NoSeq
(* python and JSON mappings as a sequence of pairs *)
NoDict == [ok |-> FALSE]
DictIn(x, c, st) ==
  LET v == Deref(c.H, x) IN
  IF v.t = "dict" /\ c.mode # "jkey" THEN [ok |-> TRUE, d |-> v.d]
  ELSE IF v.t = "map" /\ c.mode = "python" /\ ~st THEN [ok |-> TRUE, d |-> v.d]
  ELSE NoDict
(* a JSON object is iterated key by key, keys are then in "jkey" mode *)
KeyCtx(c) == IF c.mode = "json" THEN [c EXCEPT !.mode = "jkey"] ELSE c
AttrsApply(v) == v.t \in {"inst", "src", "obj", "enum", "strsub", "intsub", "floatsub", "bytessub", "args", "dec", "undef", "map"}
                 \/ (v.t = "itb" /\ v.k = "iter") \/ (v.t = "cls" /\ v.c \in {e.c : e \in Range(Data.enums)})
(* what a model-like validator reads its fields from *)
FieldsIn(x, c, st, fa) ==
  LET v == Deref(c.H, x) d == DictIn(x, c, st) IN
  IF d.ok THEN [k |-> "dict", d |-> d.d, o |-> None, hk |-> FALSE]
  ELSE IF c.mode # "python" \/ ~fa THEN [k |-> "dict_type"]
  ELSE IF AttrsApply(v) THEN [k |-> "attrs", d |-> <<>>, o |-> x, hk |-> FALSE]
  ELSE IF v.t = "tuple" /\ Len(v.l) = 2 /\ Deref(c.H, v.l[2]).t = "dict" /\ AttrsApply(Deref(c.H, v.l[1]))
       THEN [k |-> "attrs", d |-> Deref(c.H, v.l[2]).d, o |-> v.l[1], hk |-> TRUE]
  ELSE [k |-> "model_attributes_type"]

(********************************* look-ups *********************************)
Paths(a) == CASE a.k = "str" -> << <<LocS(a.s)>> >> [] a.k = "path" -> <<a.p>> [] a.k = "choices" -> a.c
(* python getitem on an arbitrary value *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PyItem(H, x, it) ==
  LET v == Deref(H, x) IN
  IF v.t \in {"dict", "map"} THEN GetIn(H, v.d, IF Has(it, "s") THEN Str(it.s) ELSE IntV(it.n))
  ELSE IF Has(it, "n") /\ (v.t \in {"list", "tuple"} \/ (v.t = "itb" /\ v.k = "deque"))
       THEN LET i == IF it.n >= 0 THEN it.n + 1 ELSE Len(v.l) + 1 + it.n IN
            IF i >= 1 /\ i <= Len(v.l) THEN Found(v.l[i]) ELSE Absent
  ELSE IF Has(it, "n") /\ v.t \in {"bytes", "bytessub", "bytearray"} /\ v.u   \* the code of a (printable ASCII) byte
       THEN LET i == IF it.n >= 0 THEN it.n + 1 ELSE Len(v.y) + 1 + it.n IN
            IF i >= 1 /\ i <= Len(v.y) THEN Found(IntV(31 + IndexWhere(Chars(Ascii), LAMBDA ch : ch = Ch(v.y, i)))) ELSE Absent
  ELSE Absent
JItem(x, it) ==
  IF x.t = "dict" /\ Has(it, "s") THEN JGetIn(x.d, it.s)
  ELSE IF x.t = "list" /\ Has(it, "n")
       THEN LET i == IF it.n >= 0 THEN it.n + 1 ELSE Len(x.l) + 1 + it.n IN
            IF i >= 1 /\ i <= Len(x.l) THEN Found(x.l[i]) ELSE Absent
  ELSE Absent
AttrItem(H, x, it) ==
  IF Has(it, "n") \/ Deref(H, x).t = "dict" THEN PyItem(H, x, it)
  ELSE GetAttr(H, x, it.s)
Walk(r, p, St(_, _)) == FoldN(LAMBDA a, i : IF a.k # "some" THEN a ELSE St(a.v, p[i]), r, Len(p))
PathIn(c, d, p) ==
  IF c.mode = "json" THEN Walk(JGetIn(d, p[1].s), Tail(p), JItem)
  ELSE Walk(GetIn(c.H, d, Str(p[1].s)), Tail(p), LAMBDA v, it : PyItem(c.H, v, it))
PathAttr(c, o, p) == Walk(GetAttr(c.H, o, p[1].s), Tail(p), LAMBDA v, it : AttrItem(c.H, v, it))
FirstPath(ps, P(_)) == IndexWhere(ps, LAMBDA p : P(p).k # "none")
(* the paths a field is looked up by; "none" of them is a configuration error *)
Opt3(a, cfg, k, d) == IF a # "none" THEN a = "true" ELSE IF Has(cfg, k) THEN cfg[k] ELSE d
KeyPaths(c, cfg, f, ak) ==
  LET ba == Opt3(c.ba, cfg, "validate_by_alias", TRUE)
      bn == Opt3(c.bn, cfg, "validate_by_name", FALSE)
      nm == << <<LocS(f.name)>> >> IN
  IF ~ba /\ ~bn THEN <<>>
  ELSE IF ~Has(f, ak) THEN nm
  ELSE IF ba /\ bn THEN Paths(f[ak]) \o nm
  ELSE IF ba THEN Paths(f[ak]) ELSE nm
Unread(o, loc) == Line("get_attribute_error", o, << <<"error", Str("ValueError: bad property")>> >>, loc)
LocByAlias(cfg) == IF Has(cfg, "loc_by_alias") THEN cfg.loc_by_alias ELSE TRUE
(* which path finds the field in src, and what it finds *)
Look(c, src, ps) ==
  LET kw == IF src.k = "dict" \/ src.hk THEN FirstPath(ps, LAMBDA p : PathIn(c, src.d, p)) ELSE 0
      at == IF src.k = "attrs" THEN FirstPath(ps, LAMBDA p : PathAttr(c, src.o, p)) ELSE 0 IN
  IF kw # 0 THEN [k |-> "some", p |-> ps[kw], v |-> PathIn(c, src.d, ps[kw]).v]
  ELSE IF at # 0 THEN LET r == PathAttr(c, src.o, ps[at]) IN
       IF r.k = "fail" THEN r ELSE [k |-> "some", p |-> ps[at], v |-> r.v]
  ELSE Absent

(******************************* user functions *****************************)
InfoOf(f, c) ==
  IF Has(f, "info") /\ f.info
  THEN [n |-> 1, mode |-> IF c.it = "strings" THEN "string" ELSE c.it, fname |-> IF c.fn # "" THEN c.fn ELSE Opt(f, "fname", ""),
        hctx |-> c.ctxv.t # "none", ctx |-> c.ctxv, hdata |-> c.hd, data |-> Dict(c.data)]
  ELSE [n |-> 0]
Note(f, args, i) == [Eff0 EXCEPT !.log = << [f |-> f, a |-> args, i |-> i] >>]
PyErrV(cls, s) == [t |-> "err", c |-> cls, s |-> s]
(* what becomes of an exception raised by a user function, given the input    *)
Raised(f, x) ==
  CASE f.b = "raise_value" -> Err("value_error", x, << <<"error", PyErrV("ValueError", "bad " \o f.f)>> >>)
    [] f.b = "raise_assert" -> Err("assertion_error", x, << <<"error", PyErrV("AssertionError", "bad " \o f.f)>> >>)
    [] f.b = "raise_custom" -> Err("my_err", x, << <<"k", IntV(1)>> >>)
    [] f.b = "raise_known" -> Err0("int_type", x)
    [] f.b = "raise_omit" -> OmitV
    [] f.b = "raise_usedef" -> UseDefV
    [] f.b = "raise_other" -> ExcV("UserError")
    [] f.b = "raise_type" -> ExcV("TypeError")
    [] f.b = "raise_runtime" -> ExcV("RuntimeError")
(* user code raising outside a function validator: nothing is converted *)
RawCls(f) ==
      (CASE f.b = "raise_value" -> "ValueError" [] f.b = "raise_assert" -> "AssertionError"
         [] f.b = "raise_custom" -> "PydanticCustomError" [] f.b = "raise_known" -> "PydanticKnownError"
         [] f.b = "raise_omit" -> "PydanticOmit" [] f.b = "raise_usedef" -> "PydanticUseDefault"
         [] f.b = "raise_other" -> "UserError" [] f.b = "raise_type" -> "TypeError" [] f.b = "raise_runtime" -> "RuntimeError")
RaisedRaw(f) == [ExcV(RawCls(f)) EXCEPT !.v = [t |-> "fn", f |-> f.f, b |-> f.b]]
Raises(f) == f.b \in {"raise_value", "raise_assert", "raise_custom", "raise_known", "raise_omit", "raise_usedef",
                      "raise_other", "raise_type", "raise_runtime"}
Skips(f, x, H) == Has(f, "when") /\ ~(Deref(H, x).t = f.when.t /\ PyEq(H, x, f.when))
(* a function called with value x, on behalf of input inp *)
Act(f, x, inp, H) ==
  IF Skips(f, x, H) THEN OkV(x, Exact)
  ELSE IF Raises(f) THEN Raised(f, inp)
  ELSE CASE f.b \in {"id", "reenter"} -> OkV(x, Exact) [] f.b = "const" -> OkV(f.v, Exact) [] f.b = "wrap_list" -> OkV(List(<<x>>), Exact)
(* A user function that calls the library again while it is being called: what *)
(* it gets is what the call gives by itself, and the call in progress goes on.  *)
(* (functions entered by the inner call do not call again)                     *)
Ctx0(case, op, H) ==
  [mode |-> Opt(op, "mode", "python"), it |-> Opt(op, "mode", "python"), strict |-> Opt(op, "strict", "none"), cfg |-> case.cfg[op.s], H |-> H, defs |-> <<>>,
   ctxv |-> Opt(op, "ctx", None), partial |-> Opt(op, "partial", "off"), guard |-> {}, data |-> <<>>, hd |-> FALSE,
   fn |-> "", fa |-> Opt(op, "from_attributes", "none"), ba |-> Opt(op, "by_alias", "none"), bn |-> Opt(op, "by_name", "none"),
   un |-> FALSE, self |-> Opt(op, "self", None),
   case |-> case, nest |-> 0, dup |-> Has(op, "dup"),
   jt |-> Opt(case, "jtexts", <<>>)]
Mark(r) == CASE r.k = "ok" -> Tuple(<<Str("ok"), r.v>>)
             [] r.k = "errs" -> Tuple(<<Str("errs")>> \o [i \in DOMAIN r.errs |-> Str(r.errs[i].ty)])
             [] r.k = "exc" -> Tuple(<<Str("exc"), Str(r.exc)>>)
             [] OTHER -> Tuple(<<Str("exc"), Str("SchemaError")>>)
Again(f, c) ==
  IF f.b # "reenter" \/ c.nest = 1 THEN Eff0
  ELSE LET op == f.re
           c2 == [Ctx0(c.case, op, c.H) EXCEPT !.nest = 1]
           r == IF StrBad(op.x, c2) THEN Err0("string_type", op.x) ELSE V(c.case.schemas[op.s].v, op.x, c2)
       IN [Eff0 EXCEPT !.log = r.log \o << [f |-> f.f \o ":re", a |-> <<Mark(r)>>, i |-> [n |-> 0]] >>]
Call(f, x, inp, c) == With(With(Note(f.f, <<x>>, InfoOf(f, c)), Again(f, c)), Act(f, x, inp, c.H))

(* the handler a wrap function gets: errors become exceptions *)
Handler(Inner(_, _), x, c) == Inner(x, [Py(Off(c)) EXCEPT !.fn = ""])
(* what the wrap function lets through of a handler result *)
Through(r, x) ==
  CASE r.k \in {"omit", "usedefault"} -> With(r, ExcV("SchemaError"))
    \* an exception of user code that went through the handler unchanged meets the function's own rules
    [] r.k = "exc" /\ r.v.t = "fn" -> With(r, Raised(r.v, x))
    [] OTHER -> r
WrapAct(f, x, inp, c, Inner(_, _)) ==
  LET H1 == Through(Handler(Inner, x, c), inp) IN
  CASE f.b \in {"id", "const", "wrap_list"} \/ Raises(f) -> Act(f, x, inp, c.H)
    [] f.b = "call" -> H1
    [] f.b = "reenter" -> With(Again(f, c), H1)
    [] f.b = "call_const" -> Through(Handler(Inner, f.v, c), inp)
    [] f.b = "call_list" -> IF IsOk(H1) THEN [H1 EXCEPT !.v = List(<<@>>)] ELSE H1
    [] f.b = "catch" -> IF H1.k = "errs" /\ Handler(Inner, x, c).k = "errs" THEN [With(H1, OkV(f.v, Exact)) EXCEPT !.ex = H1.ex] ELSE H1
    [] f.b = "catch_retry" -> IF H1.k = "errs" /\ Handler(Inner, x, c).k = "errs" THEN With(H1, Through(Handler(Inner, f.v, c), inp)) ELSE H1
    [] f.b = "twice" -> IF IsOk(H1) THEN With(H1, H1) ELSE H1
    [] f.b = "loc" -> LET r == Handler(Inner, x, c) IN
                      IF r.k = "errs" THEN OuterLoc(r, <<LocS(f.loc)>>) ELSE Through(r, inp)

(******************************** containers ********************************)
PartialAt(c, i, n) == IF c.partial # "off" /\ i = n THEN c.partial ELSE "off"
TooLong(x, ft, act, m) ==
  Err("too_long", x, << <<"actual_length", IF act < 0 THEN None ELSE IntV(act)>>, <<"field_type", Str(ft)>>, <<"max_length", IntV(m)>> >>)
TooShort(x, ft, act, m) ==
  Err("too_short", x, << <<"actual_length", IntV(act)>>, <<"field_type", Str(ft)>>, <<"min_length", IntV(m)>> >>)
IterErr(x, i) == OuterLoc(Err("iteration_error", x, << <<"error", Str("RuntimeError: boom")>> >>), <<LocN(i)>>)
NItems(sq) == IF sq.fail >= 0 THEN Min2(sq.fail, Len(sq.l)) ELSE Len(sq.l)
HasItems(s) == Has(s, "items_schema") /\ s.items_schema.type # "any"

VList(s, x, c) ==
  LET st == IsStrict(s, c)
      sq == SeqIn(x, c, "list", st)
      n == NItems(sq)
      mx == Opt(s, "max_length", -1) mn == Opt(s, "min_length", -1)
      ff == Opt(s, "fail_fast", FALSE)
      cnt(L) == L.cnt + 1
      Step1(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET p == PartialAt(c, i, IF sq.fail >= 0 THEN 0 ELSE n)
                 r == V(s.items_schema, sq.l[i], [c EXCEPT !.partial = p])
                 a == Acc(L.a, r)
                 over == mx >= 0 /\ L.cnt + 1 > mx IN
             CASE r.k = "ok" -> IF over THEN [L EXCEPT !.a = a, !.stop = TooLong(x, "List", sq.len, mx)]
                                ELSE [L EXCEPT !.a = a, !.out = Append(@, r.v), !.cnt = @ + 1]
               [] r.k = "errs" -> IF over THEN [L EXCEPT !.a = a, !.stop = TooLong(x, "List", sq.len, mx)]
                                  ELSE IF p # "off" THEN [L EXCEPT !.a = a, !.cnt = @ + 1]
                                  ELSE LET es == L.errs \o WithLoc(r.errs, <<LocN(i - 1)>>) IN
                                       [L EXCEPT !.a = a, !.cnt = @ + 1, !.errs = es,
                                                 !.stop = IF ff THEN ErrsV(es) ELSE Go]
               [] r.k = "omit" -> [L EXCEPT !.a = a]
               [] OTHER -> [L EXCEPT !.a = a, !.stop = r]
      L1 == FoldN(Step1, [cnt |-> 0] @@ Loop0(<<>>), n)
      plainOver == mx >= 0 /\ n > mx
      short(out) == IF mn >= 0 /\ Len(out) < mn THEN TooShort(x, "List", Len(out), mn) ELSE OkV(List(out), Exact)
  IN IF ~sq.ok THEN Err0("list_type", x)
     ELSE IF ~HasItems(s) THEN
       IF sq.ex = Exact /\ c.mode = "python" THEN
         Floor(IF mn >= 0 /\ n < mn THEN TooShort(x, "List", n, mn)
               ELSE IF plainOver THEN TooLong(x, "List", n, mx) ELSE OkV(List(sq.l), Exact), sq.ex)
       ELSE Floor(IF plainOver THEN TooLong(x, "List", sq.len, mx)
                  ELSE IF sq.fail >= 0 /\ sq.fail <= Len(sq.l) THEN IterErr(x, sq.fail) ELSE short(sq.l), sq.ex)
     ELSE Floor(With(L1.a,
            IF L1.stop.k # "go" THEN Bare(L1.stop)
            ELSE IF sq.fail >= 0 /\ sq.fail <= Len(sq.l) THEN IterErr(x, sq.fail)
            ELSE IF Len(L1.errs) > 0 THEN ErrsV(L1.errs) ELSE short(L1.out)), sq.ex)

InSet(H, l, v) == \E i \in DOMAIN l : PyEq(H, l[i], v)
VSet(s, x, c) ==
  LET own == s.type ft == IF own = "set" THEN "Set" ELSE "Frozenset"
      sq == SeqIn(x, c, own, IsStrict(s, c))
      n == NItems(sq)
      mx == Opt(s, "max_length", -1) mn == Opt(s, "min_length", -1)
      ff == Opt(s, "fail_fast", FALSE)
      item == IF Has(s, "items_schema") THEN s.items_schema ELSE [type |-> "any"]
      Step1(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET p == PartialAt(c, i, IF sq.fail >= 0 THEN 0 ELSE n)
                 r0 == V(item, sq.l[i], [c EXCEPT !.partial = p])
                 r == IF r0.k = "ok" /\ ~Hashable(c.H, r0.v) THEN With(r0, Err0("set_item_not_hashable", sq.l[i])) ELSE r0
                 a == Acc(L.a, r)
                 out == IF r.k = "ok" /\ ~InSet(c.H, L.out, r.v) THEN Append(L.out, r.v) ELSE L.out IN
             CASE r.k = "ok" -> [L EXCEPT !.a = a, !.out = out,
                                          !.stop = IF mx >= 0 /\ Len(out) > mx THEN TooLong(x, ft, -1, mx) ELSE Go]
               [] r.k = "errs" -> IF p # "off" THEN [L EXCEPT !.a = a]
                                  ELSE LET es == L.errs \o WithLoc(r.errs, <<LocN(i - 1)>>) IN
                                       [L EXCEPT !.a = a, !.errs = es, !.stop = IF ff THEN ErrsV(es) ELSE Go]
               [] r.k = "omit" -> [L EXCEPT !.a = a]
               [] OTHER -> [L EXCEPT !.a = a, !.stop = r]
      L1 == FoldN(Step1, Loop0(<<>>), n)
  IN IF ~sq.ok THEN Err0(IF own = "set" THEN "set_type" ELSE "frozen_set_type", x)
     ELSE Floor(With(L1.a,
            IF L1.stop.k # "go" THEN Bare(L1.stop)
            ELSE IF sq.fail >= 0 /\ sq.fail <= Len(sq.l) THEN IterErr(x, sq.fail)
            ELSE IF Len(L1.errs) > 0 THEN ErrsV(L1.errs)
            ELSE IF mn >= 0 /\ Len(L1.out) < mn THEN TooShort(x, ft, Len(L1.out), mn)
            ELSE OkV([t |-> own, l |-> L1.out], Exact)), sq.ex)

VTuple(s, x, c0) ==
  LET c == Off(c0)
      sq == SeqIn(x, c, "tuple", IsStrict(s, c))
      n == NItems(sq)
      fails == sq.fail >= 0 /\ sq.fail <= Len(sq.l)
      vs == s.items_schema  nv == Len(vs)
      mx == Opt(s, "max_length", -1) mn == Opt(s, "min_length", -1)
      ff == Opt(s, "fail_fast", FALSE)
      vi == IF Has(s, "variadic_item_index") THEN s.variadic_item_index + 1 ELSE 0
      ntail == IF vi = 0 THEN 0 ELSE nv - vi
      nhead == IF vi = 0 THEN nv ELSE vi - 1
      nvar == IF vi = 0 THEN 0 ELSE Max2(0, n - nhead - ntail)
      Push(L, a, v) == LET out == Append(L.out, v) IN
        [L EXCEPT !.a = a, !.out = out, !.stop = IF mx >= 0 /\ Len(out) > mx THEN TooLong(x, "Tuple", sq.len, mx) ELSE Go]
      (* validator v on the item of index i (0-based) *)
      Item(L, v, i) ==
        LET r == V(v, sq.l[i + 1], c) a == Acc(L.a, r) IN
        CASE r.k = "ok" -> Push(L, a, r.v)
          [] r.k = "errs" -> [L EXCEPT !.a = a, !.errs = @ \o WithLoc(r.errs, <<LocN(i)>>)]
          [] r.k = "omit" -> [L EXCEPT !.a = a]
          [] OTHER -> [L EXCEPT !.a = a, !.stop = r]
      Missing(L, v, i) ==
        LET r == DefaultOf(v, <<LocN(i)>>, c) a == Acc(L.a, r) IN
        CASE r.k = "ok" -> Push(L, a, r.v)
          [] r.k = "nodefault" -> [L EXCEPT !.a = a, !.errs = Append(@, Line("missing", x, <<>>, <<LocN(i)>>))]
          [] r.k = "errs" -> [L EXCEPT !.a = a, !.errs = @ \o r.errs]
          [] OTHER -> [L EXCEPT !.a = a, !.stop = r]
      Halt(L) == L.stop.k # "go" \/ (ff /\ Len(L.errs) > 0)
      (* an iteration that fails looks like the end of the input until everything is done *)
      Reach(L) == IF fails THEN [L EXCEPT !.it = TRUE] ELSE L
      HeadStep(L, k) == IF Halt(L) THEN L
                        ELSE IF k <= n THEN Item(L, vs[k], k - 1) ELSE Missing(Reach(L), vs[k], k - 1)
      L1 == FoldN(HeadStep, [it |-> FALSE] @@ Loop0(<<>>), nhead)
      Var(L, k) == IF Halt(L) THEN L ELSE Item(L, vs[vi], nhead + k - 1)
      L2 == FoldN(Var, IF vi > 0 /\ ~Halt(L1) /\ ntail > 0 /\ n < nhead + ntail THEN Reach(L1) ELSE L1, nvar)
      L3 == IF vi > 0 /\ ~Halt(L2) THEN Reach(L2) ELSE L2
      TailStep(L, k) == LET i == nhead + nvar + k - 1 IN
        IF Halt(L) THEN L ELSE IF i < n THEN Item(L, vs[vi + k], i) ELSE Missing(L, vs[vi + k], i)
      L4 == IF ntail = 0 THEN L3 ELSE FoldN(TailStep, L3, ntail)
      L5 == IF vi = 0 /\ ~Halt(L4) THEN
              IF n > nv THEN [L4 EXCEPT !.stop = TooLong(x, "Tuple", sq.len, nv)] ELSE Reach(L4)
            ELSE L4
      errs == L5.errs \o (IF mn >= 0 /\ Len(L5.out) < mn THEN TooShort(x, "Tuple", Len(L5.out), mn).errs ELSE <<>>)
  IN IF ~sq.ok THEN Err0("tuple_type", x)
     ELSE Floor(With(L5.a, IF L5.stop.k # "go" THEN Bare(L5.stop)
                           ELSE IF L5.it THEN IterErr(x, sq.fail)
                           ELSE IF Len(errs) > 0 THEN ErrsV(errs) ELSE OkV(Tuple(L5.out), Exact)), sq.ex)

VDict(s, x, c) ==
  LET di == DictIn(x, c, IsStrict(s, c))
      n == Len(di.d)
      ks == Opt(s, "keys_schema", [type |-> "any"]) vs == Opt(s, "values_schema", [type |-> "any"])
      mx == Opt(s, "max_length", -1) mn == Opt(s, "min_length", -1)
      Step1(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET key == di.d[i][1] val == di.d[i][2]
                 p == PartialAt(c, i, n)
                 loc == LocOfKey(c.H, key)
                 kbad == StrBad(key, c) vbad == StrBad(val, c)
                 rk == V(ks, key, KeyCtx(Off(c)))
                 a1 == Acc(L.a, rk)
                 rv == V(vs, val, [c EXCEPT !.partial = p])
                 a2 == Acc(a1, rv)
                 L1 == IF rk.k = "errs" THEN [L EXCEPT !.errs = @ \o WithLoc(rk.errs, loc \o <<LocS("[key]")>>)] ELSE L IN
             IF kbad THEN [L EXCEPT !.stop = Err0("string_type", key)]
             ELSE IF vbad THEN [L EXCEPT !.stop = Err0("string_type", val)]
             ELSE IF rk.k = "omit" THEN [L EXCEPT !.a = a1]
             ELSE IF rk.k \notin {"ok", "errs"} THEN [L EXCEPT !.a = a1, !.stop = rk]
             ELSE CASE rv.k = "ok" ->
                       IF rk.k # "ok" THEN [L1 EXCEPT !.a = a2]
                       ELSE IF ~Hashable(c.H, rk.v) THEN [L1 EXCEPT !.a = a2, !.stop = ExcV("TypeError")]
                       ELSE [L1 EXCEPT !.a = a2, !.out = PutKey(c.H, @, rk.v, rv.v)]
                    [] rv.k = "errs" -> [L1 EXCEPT !.a = a2, !.errs = IF p # "off" THEN @ ELSE @ \o WithLoc(rv.errs, loc)]
                    [] rv.k = "omit" -> [L1 EXCEPT !.a = a2]
                    [] OTHER -> [L1 EXCEPT !.a = a2, !.stop = rv]
      L1 == FoldN(Step1, Loop0(<<>>), n)
  IN IF ~di.ok THEN Err0("dict_type", x)
     ELSE With(L1.a,
            IF L1.stop.k # "go" THEN Bare(L1.stop)
            ELSE IF Len(L1.errs) > 0 THEN ErrsV(L1.errs)
            ELSE IF mn >= 0 /\ Len(L1.out) < mn THEN TooShort(x, "Dictionary", Len(L1.out), mn)
            ELSE IF mx >= 0 /\ Len(L1.out) > mx THEN TooLong(x, "Dictionary", Len(L1.out), mx)
            ELSE OkV(Dict(L1.out), Exact))

(********************************** unions **********************************)
CustomErr(s, x) ==
  LET ctx == Opt(s, "custom_error_context", <<>>) IN
  Err(s.custom_error_type, x, IF Has(s, "custom_error_message") \/ TRUE THEN ctx ELSE <<>>)
Label(ch) == IF Has(ch, "label") THEN ch.label ELSE Nm(ch.schema)
ChoiceErrs(s, x, es) == IF Has(s, "custom_error_type") THEN CustomErr(s, x).errs ELSE es
VSmart(s, x, c) ==
  LET cu == [c EXCEPT !.un = TRUE]
      Step1(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET r == V(s.choices[i].schema, x, cu)
                 a == Acc(L.a, Seen(r)) IN
             CASE r.k = "ok" /\ r.ex = Exact /\ r.fs = -1 -> [L EXCEPT !.a = a, !.stop = OkV(r.v, Exact)]
               [] r.k = "ok" ->
                  [L EXCEPT !.a = a,
                     !.best = IF L.best.k = "none" THEN r
                              ELSE IF (IF L.best.fs >= 0 /\ r.fs >= 0 /\ L.best.fs # r.fs THEN L.best.fs < r.fs ELSE L.best.ex < r.ex)
                                   THEN r ELSE L.best]
               [] r.k = "errs" -> [L EXCEPT !.a = a, !.errs = IF L.best.k = "none" THEN @ \o WithLoc(r.errs, <<LocS(Label(s.choices[i]))>>) ELSE @]
               [] OTHER -> [L EXCEPT !.a = a, !.stop = [r EXCEPT !.log = <<>>, !.hp = <<>>, !.ex = Exact, !.fs = -1]]
      L1 == FoldN(Step1, [best |-> [k |-> "none"]] @@ Loop0(<<>>), Len(s.choices))
  IN With(L1.a, IF L1.stop.k # "go" THEN Bare(L1.stop)
                ELSE IF L1.best.k = "ok" THEN [L1.best EXCEPT !.log = <<>>, !.hp = <<>>]
                ELSE ErrsV(ChoiceErrs(s, x, L1.errs)))
VLeftRight(s, x, c) ==
  LET Step1(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET r == V(s.choices[i].schema, x, c) IN
             IF r.k = "errs" THEN [L EXCEPT !.a = Acc(L.a, Seen(r)), !.last = r, !.errs = @ \o WithLoc(r.errs, <<LocS(Label(s.choices[i]))>>)]
             ELSE [L EXCEPT !.stop = r]
      L1 == FoldN(Step1, [last |-> Eff0] @@ Loop0(<<>>), Len(s.choices))
  IN With(L1.a, IF L1.stop.k # "go" THEN L1.stop
                ELSE [ErrsV(ChoiceErrs(s, x, L1.errs)) EXCEPT !.ex = L1.last.ex, !.fs = L1.last.fs])
VUnion(s, x, c) ==
  IF Len(s.choices) = 1 /\ Opt(s, "auto_collapse", TRUE) THEN V(s.choices[1].schema, x, c)
  ELSE IF Opt(s, "mode", "smart") = "smart" THEN VSmart(s, x, c) ELSE VLeftRight(s, x, c)

PathRepr(p) == Join([i \in DOMAIN p |-> IF Has(p[i], "s") THEN Quote(p[i].s) ELSE ToString(p[i].n)], ".")
DiscRepr(d) ==
  IF d.k = "fn" THEN d.f \o "()"
  ELSE IF d.k = "str" THEN Quote(d.s)
  ELSE Join([i \in DOMAIN Paths(d) |-> PathRepr(Paths(d)[i])], " | ")
(* literal look-up: the value of the same kind first, then plain equality    *)
IsI64(v) == v.t = "int" \/ (v.t = "big" /\ InI64(v))
LastOf(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
LitFind(H, es, x, mode) ==
  LET e == Eff(x)
      b == ValBool(x, TRUE, mode)
      bi == LastOf({i \in DOMAIN es : es[i].t = "bool" /\ es[i] = b.v})
      ii == LastOf({i \in DOMAIN es : IsI64(es[i]) /\ es[i] = x})
      sv == IF mode = "python" THEN x.t = "str" ELSE StrLike(e)
      si == LastOf({i \in DOMAIN es : es[i].t = "str" /\ es[i].s = e.s})
      inDict(i) == ~IsI64(es[i]) /\ es[i].t # "str" /\ Hashable(H, es[i])
      hx == Hashable(H, x)
      di == LastOf({i \in DOMAIN es : inDict(i) /\ PyEq(H, es[i], x)})
      ui == LET S == {i \in DOMAIN es : ~Hashable(H, es[i]) /\ PyEq(H, es[i], x)} IN
            IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
      pi == LastOf({i \in DOMAIN es : (es[i].t = "bool" \/ IsI64(es[i]) \/ es[i].t = "str") /\ PyEq(H, es[i], x)})
  IN IF b.k = "ok" /\ bi # 0 THEN bi
     ELSE IF mode \in {"python", "json"} /\ IsI64(x) /\ ii # 0 THEN ii
     ELSE IF sv /\ si # 0 THEN si
     ELSE IF hx /\ di # 0 THEN di
     ELSE IF ui # 0 THEN ui
     ELSE IF hx THEN pi ELSE 0
OrList(l) == IF Len(l) = 1 THEN l[1] ELSE Join(Front(l), ", ") \o " or " \o Last(l)
VLiteral(s, x, c) ==
  LET i == LitFind(c.H, s.expected, IF Deref(c.H, x).t \in {"tuple", "frozenset"} THEN x ELSE x, c.mode) IN
  IF i # 0 THEN OkV(s.expected[i], Exact)
  ELSE Err("literal_error", x, << <<"expected", Str(OrList([j \in DOMAIN s.expected |-> PyRepr(c.H, s.expected[j])]))>> >>)

TagKeys(s) == [i \in DOMAIN s.choices |-> s.choices[i].tag]
VTagged(s, x, c) ==
  LET d == s.discriminator
      fa == IF c.fa # "none" THEN c.fa = "true" ELSE IF Has(s, "from_attributes") THEN s.from_attributes
            ELSE IF Has(c.cfg, "from_attributes") THEN c.cfg.from_attributes ELSE TRUE
      src == FieldsIn(x, c, c.strict = "true", fa)
      lk == Look(c, src, Paths(d))
      none == IF Has(s, "custom_error_type") THEN CustomErr(s, x)
              ELSE Err("union_tag_not_found", x, << <<"discriminator", Str(DiscRepr(d))>> >>)
      bad(tag) == IF Has(s, "custom_error_type") THEN CustomErr(s, x)
                  ELSE Err("union_tag_invalid", x,
                           << <<"discriminator", Str(DiscRepr(d))>>,
                              <<"expected_tags", Str(Join([i \in DOMAIN s.choices |-> PyRepr(c.H, s.choices[i].tag)], ", "))>>,
                              <<"tag", IF Deref(c.H, tag).t \in {"none", "bool", "int", "str", "strsub", "enum", "intsub"}
                                       THEN Str(PyStr(c.H, tag)) ELSE [t |-> "wild"]>> >>)
      go(tag) == LET i == LitFind(c.H, TagKeys(s), tag, "python") IN
                 IF i = 0 THEN bad(tag) ELSE OuterLoc(V(s.choices[i].schema, x, c), LocOfKey(c.H, tag))
      xo == ToObj(x, c)
      fr == CASE d.k = "fn" /\ d.b = "key" ->
                  (IF Deref(c.H, xo).t = "dict" THEN (LET g == GetIn(c.H, Deref(c.H, xo).d, Str(d.key)) IN OkV(IF g.k = "some" THEN g.v ELSE None, Exact))
                   ELSE LET g == GetAttr(c.H, xo, d.key) IN OkV(IF g.k = "some" THEN g.v ELSE None, Exact))
             [] d.k = "fn" /\ d.b = "type" -> OkV(Str(ClassOf(c.H, xo)), Exact)
             [] d.k = "fn" /\ Raises(d) /\ ~Skips(d, xo, c.H) -> RaisedRaw(d)
             [] d.k = "fn" -> Act(d, xo, x, c.H)
             [] OTHER -> OkV(None, Exact)
  IN IF d.k = "fn" THEN
       With(Note(d.f, <<xo>>, [n |-> 0]), IF fr.k # "ok" THEN fr ELSE IF fr.v.t = "none" THEN none ELSE go(fr.v))
     ELSE IF src.k \in {"dict_type", "model_attributes_type"} THEN Err0(src.k, x)
     ELSE IF lk.k = "none" THEN none
     ELSE IF lk.k = "fail" THEN ErrsV(<<Unread(src.o, <<>>)>>)
     ELSE IF StrBad(lk.v, c) THEN Err0("string_type", lk.v)
     ELSE go(ToObj(lk.v, c))

(******************************* field containers ***************************)
(* keys that can name a field *)
KeyStr(H, k0, c) ==
  LET k == Eff(Deref(H, k0)) IN
  IF k.t = "str" THEN [ok |-> TRUE, s |-> k.s]
  ELSE IF k.t = "strsub" THEN [ok |-> TRUE, s |-> k.s] ELSE [ok |-> FALSE, s |-> ""]
Extra(s, c, d) == IF Has(s, "extra_behavior") THEN s.extra_behavior ELSE IF Has(c.cfg, "extra_fields_behavior") THEN c.cfg.extra_fields_behavior ELSE d
FaOf(s, c) == IF c.fa # "none" THEN c.fa = "true" ELSE SC(s, c.cfg, "from_attributes", "from_attributes", FALSE)
ApplyLoc(cfg, p, nm, r) == OuterLoc(r, IF LocByAlias(cfg) THEN p ELSE <<LocS(nm)>>)
MissLoc(cfg, ps, nm) == IF LocByAlias(cfg) THEN ps[1] ELSE <<LocS(nm)>>
SchemaErr == ExcV("SchemaError")

VModelFields(s, x, c0) ==
  LET c == Off(c0)
      st == IsStrict(s, c)
      src == FieldsIn(x, c, st, FaOf(s, c))
      extra == Extra(s, c, "ignore")
      nf == Len(s.fields)
      Fld(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET f == s.fields[i]
                 ps == KeyPaths(c, c.cfg, f, "validation_alias")
                 lk == Look(c, src, ps)
                 cd == [c EXCEPT !.data = L.out, !.hd = TRUE]
                 r == V(f.schema, lk.v, [cd EXCEPT !.fn = f.name])
                 d == DefaultOf(f.schema, <<LocS(f.name)>>, cd) IN
             IF Len(ps) = 0 THEN [L EXCEPT !.stop = SchemaErr]
             ELSE IF lk.k = "fail" THEN [L EXCEPT !.errs = Append(@, Unread(src.o, <<LocS(f.name)>>))]
             ELSE IF lk.k = "some" /\ StrBad(lk.v, c) THEN [L EXCEPT !.errs = Append(@, Line("string_type", lk.v, <<>>, <<LocS(f.name)>>))]
             ELSE IF lk.k = "some" THEN
               LET L1 == [L EXCEPT !.a = Acc(@, r), !.used = @ \cup {lk.p[1].s}] IN
               CASE r.k = "ok" -> [L1 EXCEPT !.out = PutKey(c.H, @, Str(f.name), r.v), !.set = Append(@, f.name)]
                 [] r.k = "omit" -> L1
                 [] r.k = "errs" -> [L1 EXCEPT !.errs = @ \o ApplyLoc(c.cfg, lk.p, f.name, r).errs]
                 [] OTHER -> [L1 EXCEPT !.stop = r]
             ELSE
               LET L1 == [L EXCEPT !.a = Acc(@, d)] IN
               CASE d.k = "ok" -> [L1 EXCEPT !.out = PutKey(c.H, @, Str(f.name), d.v)]
                 [] d.k = "nodefault" -> [L1 EXCEPT !.errs = Append(@, Line("missing", x, <<>>, MissLoc(c.cfg, ps, f.name)))]
                 [] d.k = "omit" -> L1
                 [] d.k = "errs" -> [L1 EXCEPT !.errs = @ \o d.errs]
                 [] OTHER -> [L1 EXCEPT !.stop = d]
      L1 == FoldN(Fld, [used |-> {}, set |-> <<>>, xset |-> <<>>, x |-> <<>>] @@ Loop0(<<>>), nf)
      walk == extra # "ignore" /\ src.k = "dict"
      Ext(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET key == src.d[i][1] val == src.d[i][2] ks == KeyStr(c.H, key, c)
                 loc == LocOfKey(c.H, key)
                 rk == IF Has(s, "extras_keys_schema") THEN V(s.extras_keys_schema, key, KeyCtx(c)) ELSE OkV(Str(ks.s), Exact)
                 rv == IF Has(s, "extras_schema") THEN V(s.extras_schema, val, c) ELSE OkV(ToObj(val, c), Exact) IN
             IF StrBad(key, c) THEN [L EXCEPT !.stop = Err0("string_type", key)]
             ELSE IF StrBad(val, c) THEN [L EXCEPT !.stop = Err0("string_type", val)]
             ELSE IF ~ks.ok THEN [L EXCEPT !.errs = Append(@, Line("invalid_key", key, <<>>, loc))]
             ELSE IF ks.s \in L.used THEN L
             ELSE IF extra = "forbid" THEN [L EXCEPT !.errs = Append(@, Line("extra_forbidden", val, <<>>, loc))]
             ELSE IF rk.k = "errs" THEN [L EXCEPT !.a = Acc(@, rk), !.errs = @ \o WithLoc(rk.errs, loc)]
             ELSE IF rk.k # "ok" THEN [L EXCEPT !.a = Acc(@, rk), !.stop = rk]
             ELSE LET L2 == [L EXCEPT !.a = Acc(Acc(@, rk), rv)] IN
                  CASE rv.k = "ok" -> [L2 EXCEPT !.x = PutKey(c.H, @, rk.v, rv.v), !.xset = Append(@, rk.v.s)]
                    [] rv.k = "errs" -> [L2 EXCEPT !.errs = @ \o WithLoc(rv.errs, loc)]
                    [] OTHER -> [L2 EXCEPT !.stop = rv]
      L2 == IF walk /\ L1.stop.k = "go" THEN FoldN(Ext, L1, Len(src.d)) ELSE L1
      xv == IF extra = "allow" THEN Dict(L2.x) ELSE None
      names == L2.set \o L2.xset
      RECURSIVE dedup(_)
      dedup(l) == IF Len(l) = 0 THEN <<>> ELSE LET d == dedup(Front(l)) IN IF Last(l) \in Range(d) THEN d ELSE Append(d, Last(l))
  IN IF src.k = "dict_type" THEN Err("model_type", x, << <<"class_name", Str(Opt(s, "model_name", "Model"))>> >>)
     ELSE IF src.k = "model_attributes_type" THEN Err0(src.k, x)
     ELSE With(L2.a, IF L2.stop.k # "go" THEN Bare(L2.stop)
                     ELSE IF Len(L2.errs) > 0 THEN ErrsV(L2.errs)
                     ELSE [OkV(Tuple(<<Dict(L2.out), xv, [t |-> "set", l |-> [i \in DOMAIN dedup(names) |-> Str(dedup(names)[i])]]>>), Exact)
                           EXCEPT !.fs = Len(L2.set)])

VTypedDict(s, x, c0) ==
  LET c == Cfg(c0, s)
      di == DictIn(x, c, IsStrict(s, c))
      src == [k |-> "dict", d |-> di.d, o |-> None, hk |-> FALSE]
      extra == Extra(s, c, "ignore")
      total == IF Has(s, "total") THEN s.total ELSE IF Has(c.cfg, "typed_dict_total") THEN c.cfg.typed_dict_total ELSE TRUE
      req(f) == IF Has(f, "required") THEN f.required ELSE total
      active == c.partial # "off" /\ Len(di.d) > 0
      lastKey == di.d[Len(di.d)][1]
      isLast(str) == active /\ LocOfKey(c.H, lastKey) = <<LocS(str)>>
      Fld(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET f == s.fields[i]
                 ps == KeyPaths(c, c.cfg, f, "validation_alias")
                 lk == Look(c, src, ps)
                 cd == [c EXCEPT !.data = L.out, !.hd = TRUE]
                 lp == isLast(lk.p[1].s)
                 r == V(f.schema, lk.v, [cd EXCEPT !.fn = f.name, !.partial = IF lp THEN c.partial ELSE "off"])
                 d == DefaultOf(f.schema, <<LocS(f.name)>>, [cd EXCEPT !.partial = "off"]) IN
             IF Len(ps) = 0 THEN [L EXCEPT !.stop = SchemaErr]
             ELSE IF lk.k = "some" /\ StrBad(lk.v, c) THEN
               IF isLast(f.name) THEN L ELSE [L EXCEPT !.errs = Append(@, Line("string_type", lk.v, <<>>, <<LocS(f.name)>>))]
             ELSE IF lk.k = "some" THEN
               LET L1 == [L EXCEPT !.a = Acc(@, r), !.used = @ \cup {lk.p[1].s}] IN
               CASE r.k = "ok" -> [L1 EXCEPT !.out = PutKey(c.H, @, Str(f.name), r.v), !.n = @ + 1]
                 [] r.k = "omit" -> L1
                 [] r.k = "errs" -> IF lp /\ ~req(f) THEN L1 ELSE [L1 EXCEPT !.errs = @ \o ApplyLoc(c.cfg, lk.p, f.name, r).errs]
                 [] OTHER -> [L1 EXCEPT !.stop = r]
             ELSE
               LET L1 == [L EXCEPT !.a = Acc(@, d)] IN
               CASE d.k = "ok" -> [L1 EXCEPT !.out = PutKey(c.H, @, Str(f.name), d.v)]
                 [] d.k = "nodefault" -> IF req(f) THEN [L1 EXCEPT !.errs = Append(@, Line("missing", x, <<>>, MissLoc(c.cfg, ps, f.name)))] ELSE L1
                 [] d.k = "omit" -> L1
                 [] d.k = "errs" -> [L1 EXCEPT !.errs = @ \o d.errs]
                 [] OTHER -> [L1 EXCEPT !.stop = d]
      L0 == FoldN(Fld, [used |-> {}, n |-> 0] @@ Loop0(<<>>), Len(s.fields))
      L1 == IF L0.stop.k = "go" THEN [L0 EXCEPT !.a.fs = FsAdd(@, L0.n)] ELSE L0
      Ext(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET key == src.d[i][1] val == src.d[i][2] ks == KeyStr(c.H, key, c)
                 loc == LocOfKey(c.H, key)
                 lp == active /\ LocOfKey(c.H, lastKey) = loc
                 rv == IF Has(s, "extras_schema") THEN V(s.extras_schema, val, [c EXCEPT !.partial = IF lp THEN @ ELSE "off"])
                       ELSE OkV(ToObj(val, c), Exact) IN
             IF StrBad(key, c) THEN [L EXCEPT !.stop = Err0("string_type", key)]
             ELSE IF StrBad(val, c) THEN [L EXCEPT !.stop = Err0("string_type", val)]
             ELSE IF ~ks.ok THEN [L EXCEPT !.errs = Append(@, Line("invalid_key", key, <<>>, loc))]
             ELSE IF ks.s \in L.used THEN L
             ELSE IF extra = "forbid" THEN [L EXCEPT !.errs = Append(@, Line("extra_forbidden", val, <<>>, loc))]
             ELSE LET L2 == [L EXCEPT !.a = Acc(@, rv)] IN
                  CASE rv.k = "ok" -> [L2 EXCEPT !.out = PutKey(c.H, @, Str(ks.s), rv.v)]
                    [] rv.k = "errs" -> IF lp THEN L2 ELSE [L2 EXCEPT !.errs = @ \o WithLoc(rv.errs, loc)]
                    [] OTHER -> [L2 EXCEPT !.stop = rv]
      L2 == IF extra # "ignore" /\ L1.stop.k = "go" THEN FoldN(Ext, L1, Len(src.d)) ELSE L1
  IN IF ~di.ok THEN Err0("dict_type", x)
     ELSE With(L2.a, IF L2.stop.k # "go" THEN Bare(L2.stop)
                     ELSE IF Len(L2.errs) > 0 THEN ErrsV(L2.errs) ELSE OkV(Dict(L2.out), Exact))

(* positional and keyword arguments as validators see them *)
ArgsIn(x, c) ==
  LET v == Deref(c.H, x) none == [ok |-> FALSE] IN
  IF c.mode = "json" THEN
     IF v.t = "dict" THEN [ok |-> TRUE, ha |-> FALSE, l |-> <<>>, hk |-> TRUE, d |-> v.d]
     ELSE IF v.t = "list" THEN [ok |-> TRUE, ha |-> TRUE, l |-> v.l, hk |-> FALSE, d |-> <<>>] ELSE none
  ELSE IF c.mode # "python" THEN none
  ELSE IF v.t = "dict" THEN [ok |-> TRUE, ha |-> FALSE, l |-> <<>>, hk |-> TRUE, d |-> v.d]
  ELSE IF v.t = "args" THEN [ok |-> TRUE, ha |-> TRUE, l |-> v.l, hk |-> v.hk, d |-> v.d]
  ELSE IF v.t \in {"tuple", "list"} THEN [ok |-> TRUE, ha |-> TRUE, l |-> v.l, hk |-> FALSE, d |-> <<>>]
  ELSE none
DcArgsIn(x, c) ==
  LET v == Deref(c.H, x) IN
  IF v.t = "dict" /\ c.mode # "jkey" THEN [ok |-> TRUE, ha |-> FALSE, l |-> <<>>, hk |-> TRUE, d |-> v.d]
  ELSE IF c.mode = "python" /\ v.t = "args" THEN [ok |-> TRUE, ha |-> TRUE, l |-> v.l, hk |-> v.hk, d |-> v.d]
  ELSE [ok |-> FALSE]
KwSrc(a) == [k |-> "dict", d |-> a.d, o |-> None, hk |-> FALSE]

VDataclassArgs(s, x, c0) ==
  LET c == Off(c0)
      ar == DcArgsIn(x, c)
      extra == Extra(s, c, "ignore")
      positional(i) == ~Opt(s.fields[i], "kw_only", TRUE) /\ Opt(s.fields[i], "init", TRUE)
      before(i) == Cardinality({j \in 1..(i - 1) : positional(j)})
      npos == before(Len(s.fields) + 1)
      collect == Opt(s, "collect_init_only", FALSE)
      Put(L, f, v) == IF Opt(f, "init_only", FALSE) THEN [L EXCEPT !.io = IF collect THEN Append(@, v) ELSE @]
                      ELSE [L EXCEPT !.out = PutKey(c.H, @, Str(f.name), v)]
      Fld(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET f == s.fields[i]
                 ps == KeyPaths(c, c.cfg, f, "validation_alias")
                 lk == IF ar.hk THEN Look(c, KwSrc(ar), ps) ELSE Absent
                 cd == [c EXCEPT !.data = L.out, !.hd = TRUE]
                 cf == [cd EXCEPT !.fn = f.name]
                 k == before(i) + 1
                 pos == ar.ha /\ positional(i) /\ k <= Len(ar.l)
                 rp == V(f.schema, ar.l[k], cf)
                 rk == V(f.schema, lk.v, cf)
                 dn == DefaultOf(f.schema, <<LocS(f.name)>>, cd)
                 d == DefaultOf(f.schema, <<LocS(f.name)>>, cf)
                 U(L1) == IF lk.k = "some" THEN [L1 EXCEPT !.used = @ \cup {lk.p[1].s}] ELSE L1 IN
             IF ~Opt(f, "init", TRUE) THEN
               LET L1 == [L EXCEPT !.a = Acc(@, dn)] IN
               CASE dn.k = "ok" -> [Put(L1, f, dn.v) EXCEPT !.n = @ + 1]
                 [] dn.k \in {"nodefault", "omit"} -> L1
                 [] dn.k = "errs" -> [L1 EXCEPT !.errs = @ \o dn.errs]
                 [] OTHER -> [L1 EXCEPT !.stop = dn]
             ELSE IF Len(ps) = 0 THEN [L EXCEPT !.stop = SchemaErr]
             ELSE IF lk.k = "some" /\ StrBad(lk.v, c) THEN [L EXCEPT !.stop = Err0("string_type", lk.v)]
             ELSE IF pos /\ lk.k = "some" THEN U([L EXCEPT !.errs = Append(@, Line("multiple_argument_values", lk.v, <<>>, <<LocS(f.name)>>))])
             ELSE IF pos THEN
               LET L1 == [L EXCEPT !.a = Acc(@, rp)] IN
               CASE rp.k = "ok" -> [Put(L1, f, rp.v) EXCEPT !.n = @ + 1]
                 [] rp.k = "errs" -> [L1 EXCEPT !.errs = @ \o WithLoc(rp.errs, <<LocN(k - 1)>>)]
                 [] OTHER -> [L1 EXCEPT !.stop = rp]
             ELSE IF lk.k = "some" THEN
               LET L1 == U([L EXCEPT !.a = Acc(@, rk)]) IN
               CASE rk.k = "ok" -> [Put(L1, f, rk.v) EXCEPT !.n = @ + 1]
                 [] rk.k = "errs" -> [L1 EXCEPT !.errs = @ \o ApplyLoc(c.cfg, lk.p, f.name, rk).errs]
                 [] OTHER -> [L1 EXCEPT !.stop = rk]
             ELSE
               LET L1 == [L EXCEPT !.a = Acc(@, d)] IN
               CASE d.k = "ok" -> Put(L1, f, d.v)
                 [] d.k = "nodefault" -> [L1 EXCEPT !.errs = Append(@, Line("missing", x, <<>>, MissLoc(c.cfg, ps, f.name)))]
                 [] d.k = "omit" -> L1
                 [] d.k = "errs" -> [L1 EXCEPT !.errs = @ \o d.errs]
                 [] OTHER -> [L1 EXCEPT !.stop = d]
      L1 == FoldN(Fld, [used |-> {}, n |-> 0, io |-> <<>>] @@ Loop0(<<>>), Len(s.fields))
      more == IF ar.ha /\ Len(ar.l) > npos
              THEN [j \in 1..(Len(ar.l) - npos) |-> Line("unexpected_positional_argument", ar.l[npos + j], <<>>, <<LocN(npos + j - 1)>>)]
              ELSE <<>>
      L2 == [L1 EXCEPT !.errs = @ \o more]
      Ext(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET key == ar.d[i][1] val == ar.d[i][2] ks == KeyStr(c.H, key, c)
                 loc == LocOfKey(c.H, key)
                 cd == [c EXCEPT !.data = L.out, !.hd = TRUE]
                 rv == IF Has(s, "extras_schema") THEN V(s.extras_schema, val, cd) ELSE OkV(ToObj(val, c), Exact) IN
             IF StrBad(key, c) THEN [L EXCEPT !.stop = Err0("string_type", key)]
             ELSE IF StrBad(val, c) THEN [L EXCEPT !.stop = Err0("string_type", val)]
             ELSE IF ~ks.ok THEN [L EXCEPT !.errs = Append(@, Line("invalid_key", key, <<>>, loc))]
             ELSE IF ks.s \in L.used \/ extra = "ignore" THEN L
             ELSE IF extra = "forbid" THEN [L EXCEPT !.errs = Append(@, Line("unexpected_keyword_argument", val, <<>>, loc))]
             ELSE LET L3 == [L EXCEPT !.a = Acc(@, rv)] IN
                  CASE rv.k = "ok" -> [L3 EXCEPT !.out = PutKey(c.H, @, Str(ks.s), rv.v)]
                    [] rv.k = "errs" -> [L3 EXCEPT !.errs = @ \o WithLoc(rv.errs, loc)]
                    [] OTHER -> [L3 EXCEPT !.stop = rv]
      L3 == IF L2.stop.k = "go" /\ ar.hk /\ Len(ar.d) # Cardinality(L2.used) THEN FoldN(Ext, L2, Len(ar.d)) ELSE L2
  IN IF ~ar.ok THEN (IF c.mode = "strings" THEN Err0("arguments_type", x)
                     ELSE Err("dataclass_type", x, << <<"class_name", Str(s.dataclass_name)>> >>))
     ELSE With(L3.a, IF L3.stop.k # "go" THEN Bare(L3.stop)
                     ELSE [(IF Len(L3.errs) > 0 THEN ErrsV(L3.errs)
                            ELSE OkV(Tuple(<<Dict(L3.out), IF collect THEN Tuple(L3.io) ELSE None>>), Exact)) EXCEPT !.fs = L3.n])

VArguments(s, x, c0) ==
  LET c == Off(c0)
      ar == ArgsIn(x, c)
      ps0 == s.arguments_list
      mode(f) == Opt(f, "mode", "positional_or_keyword")
      isPos(f) == mode(f) # "keyword_only"
      isKw(f) == mode(f) # "positional_only"
      npos == LET S == {i \in DOMAIN ps0 : isPos(ps0[i])} IN LastOf(S)
      cfgx == [k \in (DOMAIN c.cfg \cup (DOMAIN s \cap {"validate_by_alias", "validate_by_name"})) |-> IF k \in DOMAIN s /\ k # "loc_by_alias" THEN s[k] ELSE c.cfg[k]]
      extra == Extra(s, c, "forbid")
      Par(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET f == ps0[i]
                 ps == KeyPaths(c, cfgx, f, "alias")
                 lk == IF ar.hk /\ isKw(f) THEN Look(c, KwSrc(ar), ps) ELSE Absent
                 cf == [c EXCEPT !.fn = f.name]
                 pos == ar.ha /\ isPos(f) /\ i <= Len(ar.l)
                 rp == V(f.schema, ar.l[i], cf)
                 rk == V(f.schema, lk.v, cf)
                 d == DefaultOf(f.schema, <<LocS(f.name)>>, cf)
                 U(L1) == IF lk.k = "some" THEN [L1 EXCEPT !.used = @ \cup {lk.p[1].s}] ELSE L1
                 PutKw(L1, v) == [L1 EXCEPT !.kw = PutKey(c.H, @, Str(f.name), v)] IN
             IF isKw(f) /\ Len(ps) = 0 THEN [L EXCEPT !.stop = SchemaErr]
             ELSE IF pos /\ lk.k = "some" THEN U([L EXCEPT !.errs = Append(@, Line("multiple_argument_values", lk.v, <<>>, <<LocS(f.name)>>))])
             ELSE IF pos THEN
               LET L1 == [L EXCEPT !.a = Acc(@, rp)] IN
               CASE rp.k = "ok" -> [L1 EXCEPT !.out = Append(@, rp.v)]
                 [] rp.k = "errs" -> [L1 EXCEPT !.errs = @ \o WithLoc(rp.errs, <<LocN(i - 1)>>)]
                 [] OTHER -> [L1 EXCEPT !.stop = rp]
             ELSE IF lk.k = "some" THEN
               LET L1 == U([L EXCEPT !.a = Acc(@, rk)]) IN
               CASE rk.k = "ok" -> PutKw(L1, rk.v)
                 [] rk.k = "errs" -> [L1 EXCEPT !.errs = @ \o ApplyLoc(c.cfg, lk.p, f.name, rk).errs]
                 [] OTHER -> [L1 EXCEPT !.stop = rk]
             ELSE
               LET L1 == [L EXCEPT !.a = Acc(@, d)] IN
               CASE d.k = "ok" -> IF isKw(f) THEN PutKw(L1, d.v) ELSE [L1 EXCEPT !.out = Append(@, d.v)]
                 [] d.k = "nodefault" ->
                      [L1 EXCEPT !.errs = Append(@,
                         IF ~isKw(f) THEN Line("missing_positional_only_argument", x, <<>>, <<LocN(i - 1)>>)
                         ELSE Line(IF isPos(f) THEN "missing_argument" ELSE "missing_keyword_only_argument", x, <<>>, MissLoc(c.cfg, ps, f.name)))]
                 [] d.k = "errs" -> [L1 EXCEPT !.errs = @ \o d.errs]
                 [] OTHER -> [L1 EXCEPT !.stop = d]
      L1 == FoldN(Par, [used |-> {}, kw |-> <<>>, rest |-> <<>>] @@ Loop0(<<>>), Len(ps0))
      VarA(L, j) ==
        IF L.stop.k # "go" THEN L
        ELSE LET i == npos + j r == V(s.var_args_schema, ar.l[i], c) L2 == [L EXCEPT !.a = Acc(@, r)] IN
             CASE r.k = "ok" -> [L2 EXCEPT !.out = Append(@, r.v)]
               [] r.k = "errs" -> [L2 EXCEPT !.errs = @ \o WithLoc(r.errs, <<LocN(i - 1)>>)]
               [] OTHER -> [L2 EXCEPT !.stop = r]
      nx == IF ar.ha THEN Max2(0, Len(ar.l) - npos) ELSE 0
      L2 == IF L1.stop.k # "go" THEN L1
            ELSE IF Has(s, "var_args_schema") THEN FoldN(VarA, L1, nx)
            ELSE [L1 EXCEPT !.errs = @ \o [j \in 1..nx |-> Line("unexpected_positional_argument", ar.l[npos + j], <<>>, <<LocN(npos + j - 1)>>)]]
      vkm == Opt(s, "var_kwargs_mode", "uniform")
      Kw(L, i) ==
        IF L.stop.k # "go" THEN L
        ELSE LET key == ar.d[i][1] val == ar.d[i][2] ks == KeyStr(c.H, key, c)
                 loc == LocOfKey(c.H, key)
                 rv == V(s.var_kwargs_schema, val, c) IN
             IF ~ks.ok THEN [L EXCEPT !.errs = Append(@, Line("invalid_key", key, <<>>, loc))]
             ELSE IF ks.s \in L.used THEN L
             ELSE IF vkm # "uniform" THEN [L EXCEPT !.rest = PutKey(c.H, @, Str(ks.s), val)]
             ELSE IF ~Has(s, "var_kwargs_schema") THEN
                  (IF extra = "forbid" THEN [L EXCEPT !.errs = Append(@, Line("unexpected_keyword_argument", val, <<>>, loc))] ELSE L)
             ELSE LET L3 == [L EXCEPT !.a = Acc(@, rv)] IN
                  CASE rv.k = "ok" -> [L3 EXCEPT !.kw = PutKey(c.H, @, Str(ks.s), rv.v)]
                    [] rv.k = "errs" -> [L3 EXCEPT !.errs = @ \o WithLoc(rv.errs, loc)]
                    [] OTHER -> [L3 EXCEPT !.stop = rv]
      L3 == IF L2.stop.k = "go" /\ ar.hk /\ Len(ar.d) > Cardinality(L2.used) THEN FoldN(Kw, L2, Len(ar.d)) ELSE L2
      ru == V(s.var_kwargs_schema, Dict(L3.rest), Py(c))
      L4 == IF L3.stop.k # "go" \/ vkm = "uniform" THEN L3
            ELSE LET L5 == [L3 EXCEPT !.a = Acc(@, ru)] IN
                 CASE ru.k = "ok" -> [L5 EXCEPT !.kw = Merge(c.H, @, ru.v.d)]
                   [] ru.k = "errs" -> [L5 EXCEPT !.errs = @ \o ru.errs]
                   [] OTHER -> [L5 EXCEPT !.stop = ru]
  IN IF ~ar.ok THEN Err0("arguments_type", x)
     ELSE With(L4.a, IF L4.stop.k # "go" THEN Bare(L4.stop)
                     ELSE IF Len(L4.errs) > 0 THEN ErrsV(L4.errs)
                     ELSE OkV(Tuple(<<Tuple(L4.out), Dict(L4.kw)>>), Exact))

VCall(s, x, c) ==
  LET ra == V(s.arguments_schema, x, c)
      f == s.function
      pair == ra.v.t = "tuple"
      args == IF pair THEN ra.v.l[1] ELSE Tuple(<<>>)
      kw == IF pair THEN ra.v.l[2] ELSE ra.v
      note == Note(f.f, <<args, kw>>, [n |-> 0])
      res == IF f.b = "pack" THEN OkV(List(<<List(args.l), kw>>), Exact)
             ELSE IF Raises(f) THEN RaisedRaw(f)
             ELSE Act(f, IF Len(args.l) > 0 THEN args.l[1] ELSE None, x, c.H)
      rr == OuterLoc(V(s.return_schema, res.v, Py(Off(c))), <<LocS("return")>>)
  IN IF ra.k # "ok" THEN ra
     ELSE With(ra, With(note, IF res.k # "ok" THEN res
                              ELSE IF Has(s, "return_schema") THEN rr ELSE [res EXCEPT !.ex = Exact]))

(*************************** models and dataclasses *************************)
Inst(cls, d, hf, fs, hx, x) == [t |-> "inst", c |-> cls, d |-> d, hf |-> hf, fs |-> fs, hx |-> hx, x |-> x]
SetNames(v) == [i \in DOMAIN v.l |-> v.l[i].s]
(* user code run on a new instance: logs what it is given, may object *)
HookModel(s, inst, ref, x, c) ==
  LET h == Opt(s, "post_init", "") IN
  CASE h = "hook" -> Note("post_init", <<c.ctxv>>, [n |-> 0])
    [] h = "hook_err" -> With(Note("post_init", <<c.ctxv>>, [n |-> 0]),
                              Err("value_error", x, << <<"error", PyErrV("ValueError", "bad post_init")>> >>))
    [] OTHER -> Eff0
ModelBuild(s, x, c, keep, into) ==   \* keep: names set on the instance revalidated; into: 0 or the cell initialised
  LET root == Opt(s, "root_model", FALSE)
      r == V(s.schema, x, IF root THEN [c EXCEPT !.fn = "root"] ELSE c)
      inst == IF root THEN Inst(s.cls, << <<Str("root"), r.v>> >>, TRUE, IF c.mode = "python" /\ x.t = "undef" THEN <<>> ELSE <<"root">>, FALSE, <<>>)
              ELSE Inst(s.cls, r.v.l[1].d, TRUE, IF keep.has THEN keep.fs ELSE SetNames(r.v.l[3]),
                        r.v.l[2].t = "dict", IF r.v.l[2].t = "dict" THEN r.v.l[2].d ELSE <<>>)
      h == HookModel(s, inst, 0, x, c)
  IN IF r.k # "ok" THEN r
     ELSE IF into = 0 THEN With(r, With(Acc(Eff0, h), IF h.k = "ok" THEN OkV(inst, Exact) ELSE Bare(h)))
     ELSE LET w == [Eff0 EXCEPT !.hp = << [r |-> into, v |-> IF root THEN
                       [c.H[into] EXCEPT !.d = PutKey(c.H, @, Str("root"), r.v), !.hf = TRUE, !.fs = inst.fs] ELSE [inst EXCEPT !.c = c.H[into].c]] >>] IN
          With(r, With(Acc(w, h), IF h.k = "ok" THEN OkV(Ref(into), Exact) ELSE Bare(h)))
NoKeep == [has |-> FALSE, fs |-> <<>>]
(* instances of the class (or of the generic origin) are not rebuilt unless asked to *)
Reval(s, cfg) == IF Has(s, "revalidate_instances") THEN s.revalidate_instances ELSE IF Has(cfg, "revalidate_instances") THEN cfg.revalidate_instances ELSE "never"
ShouldReval(s, cfg, H, x) == LET r == Reval(s, cfg) IN r = "always" \/ (r = "subclass-instances" /\ ClassOf(H, x) # s.cls)
VModel(s, x, c0) ==
  LET c == Cfg(c0, s)
      v == Deref(c.H, x)
      own == c.mode = "python" /\ IsInst(c.H, x, s.cls)
      gen == c.mode = "python" /\ ~own /\ Has(s, "generic_origin") /\ IsInst(c.H, x, s.generic_origin)
      full == IF v.hx THEN Dict(Merge(c.H, v.d, v.x)) ELSE Dict(v.d)
      root == Opt(s, "root_model", FALSE)
      rootv == GetIn(c.H, v.d, Str("root"))
  IN IF c.self.t = "ref" THEN ModelBuild(s, x, [c EXCEPT !.self = None], NoKeep, c.self.r)
     ELSE IF (own /\ ShouldReval(s, c.cfg, c.H, x)) \/ gen THEN
       IF ~v.hf THEN ExcV("AttributeError")
       ELSE IF root THEN (IF rootv.k = "none" THEN ExcV("AttributeError") ELSE ModelBuild(s, rootv.v, Py(c), NoKeep, 0))
       ELSE ModelBuild(s, full, Py(c), [has |-> TRUE, fs |-> v.fs], 0)
     ELSE IF own THEN OkV(x, Exact)
     ELSE Floor(ModelBuild(s, x, c, NoKeep, 0), Strict)

DcBuild(s, x, r, c, into) ==
  LET d == r.v.l[1].d io == r.v.l[2]
      inst == Inst(s.cls, IF Opt(s, "slots", FALSE) THEN Filter(<< <<Str("a"), None>>, <<Str("b"), None>>, <<Str("c"), None>> >>, LAMBDA p : FindKey(c.H, d, p[1]) # 0) ELSE d, FALSE, <<>>, FALSE, <<>>)
      slotd == [inst EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], GetIn(c.H, d, @[i][1]).v>>]]
      built == IF Opt(s, "slots", FALSE) THEN slotd ELSE inst
      pi == Opt(s, "post_init", FALSE)
      h == IF ~pi THEN Eff0
           ELSE LET note == Note("__post_init__", <<IF io.t = "none" THEN Tuple(<<>>) ELSE io>>, [n |-> 0]) IN
                IF s.cls = "DQ" THEN With(note, Err("value_error", x, << <<"error", PyErrV("ValueError", "bad __post_init__")>> >>)) ELSE note
      w == IF into = 0 THEN Eff0 ELSE [Eff0 EXCEPT !.hp = << [r |-> into, v |-> [built EXCEPT !.c = c.H[into].c]] >>]
  IN IF r.k # "ok" THEN r
     ELSE With(r, With(Acc(w, h), IF h.k # "ok" THEN Bare(h) ELSE OkV(IF into = 0 THEN built ELSE Ref(into), Exact)))
DcDict(H, s, x) ==   \* the declared fields of an instance
  LET at == Attrs(H, x) names == s.fields IN
  IF \E i \in DOMAIN names : GetIn(H, at, Str(names[i])).k = "none" THEN [ok |-> FALSE, d |-> <<>>]
  ELSE [ok |-> TRUE, d |-> [i \in DOMAIN names |-> <<Str(names[i]), GetIn(H, at, Str(names[i])).v>>]]
VDataclass(s, x, c0) ==
  LET c == Cfg(c0, s)
      own == c.mode = "python" /\ IsInst(c.H, x, s.cls)
      gen == c.mode = "python" /\ ~own /\ Has(s, "generic_origin") /\ IsInst(c.H, x, s.generic_origin)
      dd == DcDict(c.H, s, x)
      cs == [c EXCEPT !.self = None]
      name == IF Has(s, "cls_name") THEN s.cls_name ELSE s.cls
  IN IF c.self.t = "ref" THEN DcBuild(s, x, V(s.schema, x, cs), cs, c.self.r)
     ELSE IF (own /\ ShouldReval(s, c.cfg, c.H, x)) \/ gen THEN
       IF ~dd.ok THEN ExcV("AttributeError") ELSE DcBuild(s, x, V(s.schema, Dict(dd.d), Py(c)), c, 0)
     ELSE IF own THEN OkV(x, Exact)
     ELSE IF IsStrict(s, c) /\ c.it = "python" THEN Err("dataclass_exact_type", x, << <<"class_name", Str(name)>> >>)
     ELSE LET r == V(s.schema, x, c) IN IF IsOk(r) THEN DcBuild(s, x, Floor(r, Strict), c, 0) ELSE r

(********************************* assignment *******************************)
NoAttr(field, x) == OuterLoc(Err("no_such_attribute", x, << <<"attribute", Str(field)>> >>), <<LocS(field)>>)
FieldIdx(s, field) == IndexWhere(s.fields, LAMBDA f : f.name = field)
VAModelFields(s, d, field, x, c) ==
  LET i == FieldIdx(s, field)
      cd == [c EXCEPT !.data = DelKey(c.H, d, Str(field)), !.hd = TRUE, !.fn = field]
      extra == Extra(s, c, "ignore")
      r == IF i # 0 THEN V(s.fields[i].schema, x, cd)
           ELSE IF Has(s, "extras_schema") THEN V(s.extras_schema, x, cd) ELSE OkV(x, Exact)
      nd == PutKey(c.H, d, Str(field), r.v)
      isf(k) == \E j \in DOMAIN s.fields : Str(s.fields[j].name) = k
      fpart == Flat([j \in DOMAIN s.fields |-> LET g == GetIn(c.H, nd, Str(s.fields[j].name)) IN
                     IF g.k = "some" THEN << <<Str(s.fields[j].name), g.v>> >> ELSE <<>>])
      xpart == Filter(nd, LAMBDA p : ~isf(p[1]))
  IN IF i # 0 /\ Opt(s.fields[i], "frozen", FALSE) THEN OuterLoc(Err0("frozen_field", x), <<LocS(field)>>)
     ELSE IF i = 0 /\ extra # "allow" THEN NoAttr(field, x)
     ELSE IF r.k # "ok" THEN OuterLoc(r, <<LocS(field)>>)
     ELSE With(r, OkV(Tuple(<<Dict(IF extra = "allow" THEN fpart ELSE nd), IF extra = "allow" THEN Dict(xpart) ELSE None,
                              [t |-> "set", l |-> <<Str(field)>>]>>), Exact))
VADcArgs(s, d, field, x, c) ==
  LET i == FieldIdx(s, field)
      r == V(s.fields[i].schema, x, [c EXCEPT !.data = DelKey(c.H, d, Str(field)), !.hd = TRUE, !.fn = field])
      ok(v) == OkV(Tuple(<<Dict(PutKey(c.H, d, Str(field), v)), None>>), Exact)
  IN IF i = 0 THEN (IF Extra(s, c, "ignore") = "allow" THEN ok(x) ELSE NoAttr(field, x))
     ELSE IF Opt(s.fields[i], "frozen", FALSE) THEN OuterLoc(Err0("frozen_field", x), <<LocS(field)>>)
     ELSE IF r.k # "ok" THEN OuterLoc(r, <<LocS(field)>>) ELSE With(r, ok(r.v))
VAModel(s, obj, field, x, c0) ==
  LET c == Cfg(c0, s)
      v == Deref(c.H, obj)
      root == Opt(s, "root_model", FALSE)
      rr == V(s.schema, x, [c EXCEPT !.fn = "root"])
      base == PutKey(c.H, IF v.hx THEN Merge(c.H, v.d, v.x) ELSE v.d, Str(field), x)
      r == VA(s.schema, Dict(base), field, x, c)
      addfs(fs, l) == IF v.hf THEN fs \o Filter(l, LAMBDA n : n \notin Range(fs)) ELSE fs
      wr(nv) == [Eff0 EXCEPT !.hp = << [r |-> obj.r, v |-> nv] >>]
  IN IF Opt(s, "frozen", FALSE) THEN Err0("frozen_instance", x)
     ELSE IF root THEN
       IF field # "root" THEN NoAttr(field, x)
       ELSE IF rr.k # "ok" THEN rr
       ELSE With(rr, With(wr([v EXCEPT !.d = PutKey(c.H, @, Str("root"), rr.v), !.fs = addfs(@, <<"root">>)]), OkV(obj, Exact)))
     ELSE IF r.k # "ok" THEN r
     ELSE With(r, With(wr([v EXCEPT !.d = r.v.l[1].d, !.hx = r.v.l[2].t = "dict", !.x = IF r.v.l[2].t = "dict" THEN r.v.l[2].d ELSE <<>>,
                                    !.fs = addfs(@, SetNames(r.v.l[3]))]), OkV(obj, Exact)))
VADataclass(s, obj, field, x, c0) ==
  LET c == Cfg(c0, s)
      v == Deref(c.H, obj)
      dd == DcDict(c.H, s, obj)
      base == PutKey(c.H, dd.d, Str(field), x)
      r == VA(s.schema, Dict(base), field, x, c)
      nd == IF Opt(s, "slots", FALSE) THEN PutKey(c.H, v.d, Str(field), GetIn(c.H, r.v.l[1].d, Str(field)).v) ELSE r.v.l[1].d
  IN IF Opt(s, "frozen", FALSE) THEN Err0("frozen_instance", x)
     ELSE IF ~dd.ok THEN ExcV("AttributeError")
     ELSE IF r.k # "ok" THEN r
     ELSE With(r, With([Eff0 EXCEPT !.hp = << [r |-> obj.r, v |-> [v EXCEPT !.d = nd]] >>], OkV(obj, Exact)))
VA(s, obj, field, x, c) ==
  CASE s.type = "model" -> VAModel(s, obj, field, x, c)
    [] s.type = "dataclass" -> VADataclass(s, obj, field, x, c)
    [] s.type = "model-fields" -> VAModelFields(s, Deref(c.H, obj).d, field, x, c)
    [] s.type = "dataclass-args" -> VADcArgs(s, Deref(c.H, obj).d, field, x, c)
    [] s.type = "function-before" ->
         LET r == Call(s.function, obj, obj, c) IN
         IF r.k # "ok" THEN r ELSE With(r, VA(s.schema, r.v, field, x, c))
    [] s.type = "function-after" ->
         LET r == VA(s.schema, obj, field, x, c) IN
         IF r.k # "ok" THEN r ELSE With(r, Call(s.function, r.v, obj, c))
    [] s.type = "function-wrap" ->
         With(Note(s.function.f, <<obj>>, InfoOf(s.function, c)),
              WrapAct(s.function, obj, obj, c, LAMBDA y, cc : VA(s.schema, y, field, x, cc)))
    [] s.type = "definitions" ->
         VA(s.schema, obj, field, x, [c EXCEPT !.defs = @ \o [i \in DOMAIN s.definitions |-> [ref |-> s.definitions[i].ref, s |-> s.definitions[i], cfg |-> c.cfg]]])
    [] s.type = "definition-ref" ->
         LET d == c.defs[IndexWhere(c.defs, LAMBDA e : e.ref = s.schema_ref)] IN
         VA(d.s, obj, field, x, [c EXCEPT !.cfg = d.cfg])
    [] OTHER -> ExcV("TypeError")

(********************************* defaults *********************************)
RECURSIVE FlatChain(_)
FlatChain(st) == Flat([i \in DOMAIN st |-> IF st[i].type = "chain" THEN FlatChain(st[i].steps) ELSE <<st[i]>>])
NoDefault == [Eff0 EXCEPT !.k = "nodefault"]
DefaultOf(s, loc, c) ==
  CASE s.type = "default" ->
        LET hd == Has(s, "default") hf == Has(s, "default_factory")
            f == s.default_factory
            took == IF hf /\ Has(f, "data") /\ f.data THEN <<Dict(IF c.hd THEN c.data ELSE <<>>)>> ELSE <<>>
            raw == IF hd THEN OkV(IF Hashable(c.H, s.default) THEN s.default ELSE DeepCopy(c.H, s.default), Exact)
                   ELSE With(Note(f.f, took, [n |-> 0]),
                             IF f.b = "new_list" THEN OkV(List(<<>>), Exact)
                             ELSE IF f.b = "get" THEN
                               (LET g == GetIn(c.H, took[1].d, Str(f.key)) IN IF g.k = "some" THEN OkV(g.v, Exact) ELSE ExcV("KeyError"))
                             ELSE IF Raises(f) THEN RaisedRaw(f)
                             ELSE Act(f, None, None, c.H))
            vd == SC(s, c.cfg, "validate_default", "validate_default", FALSE)
            r == V(s.schema, raw.v, Py([c EXCEPT !.partial = "off"])) IN
        IF ~hd /\ ~hf THEN NoDefault
        ELSE IF raw.k # "ok" THEN raw
        ELSE IF ~vd THEN [raw EXCEPT !.ex = Exact]
        ELSE IF r.k = "ok" THEN With(raw, r)
        ELSE IF Opt(s, "on_error", "raise") = "omit" THEN With(raw, With(r, OmitV))
        ELSE OuterLoc(With(raw, r), loc)
    [] s.type = "chain" -> LET st == FlatChain(s.steps) IN IF Len(st) = 1 THEN DefaultOf(st[1], loc, c) ELSE NoDefault
    [] s.type = "union" -> IF Len(s.choices) = 1 /\ Opt(s, "auto_collapse", TRUE) THEN DefaultOf(s.choices[1].schema, loc, c) ELSE NoDefault
    [] s.type = "definitions" ->
         DefaultOf(s.schema, loc, [c EXCEPT !.defs = @ \o [i \in DOMAIN s.definitions |-> [ref |-> s.definitions[i].ref, s |-> s.definitions[i], cfg |-> c.cfg]]])
    [] s.type = "definition-ref" ->
         LET d == c.defs[IndexWhere(c.defs, LAMBDA e : e.ref = s.schema_ref)] IN
         DefaultOf(d.s, loc, [c EXCEPT !.cfg = d.cfg])
    [] OTHER -> NoDefault
VDefault(s, x, c) ==
  LET und == IF c.mode = "python" /\ x.t = "undef" THEN DefaultOf(s, <<>>, c) ELSE NoDefault
      r == V(s.schema, x, c)
      d == DefaultOf(s, <<>>, c)
      oe == Opt(s, "on_error", "raise")
      OrDefault == IF d.k = "nodefault" THEN r ELSE With(r, d)
  IN IF und.k # "nodefault" THEN und
     ELSE IF r.k = "ok" THEN r
     ELSE IF r.k = "usedefault" THEN OrDefault
     ELSE IF oe = "raise" THEN r
     ELSE IF oe = "omit" THEN With(r, OmitV)
     ELSE OrDefault

(********************************** routing *********************************)
VFunction(s, x, c) ==
  LET f == s.function xo == ToObj(x, c) IN
  CASE s.type = "function-plain" -> Call(f, xo, x, c)
    [] s.type = "function-before" ->
         LET r == Call(f, xo, x, c) IN IF r.k # "ok" THEN r ELSE With(r, V(s.schema, r.v, Py(c)))
    [] s.type = "function-after" ->
         LET r == V(s.schema, x, c) IN IF r.k # "ok" THEN r ELSE With(r, Call(f, r.v, x, c))
    [] s.type = "function-wrap" ->
         With(Note(f.f, <<xo>>, InfoOf(f, c)), WrapAct(f, xo, x, c, LAMBDA y, cc : V(s.schema, y, cc)))
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(st, i, x, c) ==
  LET r == V(st[i], x, c) IN
  IF r.k # "ok" \/ i = Len(st) THEN r ELSE With(r, ChainFrom(st, i + 1, r.v, Py(c)))
VLaxStrict(s, x, c) ==
  LET rs == V(s.strict_schema, x, c) rl == V(s.lax_schema, x, c) IN
  IF IsStrict(s, c) THEN V(s.strict_schema, x, c)
  ELSE IF ~c.un THEN rl
  ELSE IF rs.k = "ok" THEN rs
  ELSE With(Seen(rs), Floor(rl, Lax))
(* definition references nested in each other on the way to one value; a debug *)
(* build allows 20 fewer than the 255 of a release build                       *)
DepthLimit == 235
VDefRef(s, x, c0) ==
  LET c == Off(c0)
      d == c.defs[IndexWhere(c.defs, LAMBDA e : e.ref = s.schema_ref)]
      isref == c.mode = "python" /\ x.t = "ref"
      key == <<IF isref THEN x.r ELSE 0, s.schema_ref>>
  IN IF c.mode = "python" /\ (key \in c.guard \/ Cardinality(c.guard) >= DepthLimit) THEN Err0("recursion_loop", x)
     ELSE V(d.s, x, [c EXCEPT !.cfg = d.cfg, !.guard = IF isref THEN @ \cup {key} ELSE @])
(* the case says what JSON texts it mentions stand for; p: a value, then more  *)
VJson(s, x, c) ==
  LET r == ValBytes(x, FALSE, c.mode)
      e == Eff(x)
      txt == IF StrLike(e) THEN e.s ELSE e.y
      k == IndexWhere(c.jt, LAMBDA t : t.s = txt) IN
  IF r.k # "ok" THEN Err0("json_type", x)
  ELSE IF k = 0 \/ ~(c.jt[k].ok \/ (c.partial # "off" /\ c.jt[k].p)) THEN Floor(Err("json_invalid", x, << <<"error", [t |-> "wild"]>> >>), r.ex)
  ELSE IF Has(s, "schema") /\ s.schema.type # "any"
       THEN Floor(V(s.schema, c.jt[k].v, [c EXCEPT !.mode = "json", !.it = "json"]), r.ex) ELSE OkV(c.jt[k].v, r.ex)

(* enumerations *)
EnumMembers(c) == LET m == EnumRec(c).mem IN [i \in DOMAIN m |-> [t |-> "enum", c |-> c, n |-> m[i].n]]
EnumVals(c) == LET m == EnumRec(c).mem IN [i \in DOMAIN m |-> m[i].v]
FallOf(x) == IF x.t = "str" THEN x.s ELSE ""
VEnum(s, x, c) ==
  LET cls == s.cls mem == EnumMembers(cls) vals == EnumVals(cls)
      v == Deref(c.H, x) e == Eff(v)
      st == IsStrict(s, c)
      sub == IF cls = "EStr" THEN "str" ELSE IF cls = "EInt" THEN "int" ELSE IF cls = "EFlo" THEN "float" ELSE ""
      byInt(strict) == LET r == ValInt(x, strict, c.mode) IN
        IF r.k # "ok" THEN 0 ELSE LastOf({i \in DOMAIN vals : IsI64(vals[i]) /\ vals[i] = r.v})
      byStr(strict) == LET r == ValStr(x, strict, FALSE, c.mode) IN
        IF r.k # "ok" THEN 0 ELSE LastOf({i \in DOMAIN vals : vals[i].t = "str" /\ vals[i] = r.v})
      byFloat(strict) == LET r == ValFloat(x, strict, c.mode) IN
        IF r.k # "ok" THEN 0 ELSE LastOf({i \in DOMAIN vals : vals[i].t = "float" /\ PyEq(c.H, vals[i], r.v)})
      lit == LitFind(c.H, vals, x, c.mode)
      plain == IF lit # 0 THEN lit
               ELSE IF st \/ c.mode # "python" THEN 0
               ELSE IF StrLike(e) THEN byStr(FALSE)
               ELSE IF e.t \in {"int", "big", "intsub", "bool"} THEN byInt(FALSE)
               ELSE IF e.t \in FltTags THEN byInt(FALSE) ELSE 0
      i == CASE sub = "int" -> byInt(st) [] sub = "str" -> byStr(st) [] sub = "float" -> byFloat(st) [] OTHER -> plain
      \* class(value): any member whose value equals the input
      ci == IF c.mode # "python" THEN 0
            ELSE IF v.t = "enum" /\ v.c = cls THEN IndexWhere(mem, LAMBDA m : m = v)
            ELSE IndexWhere(vals, LAMBDA w : PyEq(c.H, w, x))
      mnote == Note("_missing_", <<ToObj(x, c)>>, [n |-> 0])
      expct == Err("enum", x, << <<"expected", Str(OrList([j \in DOMAIN vals |-> PyRepr(c.H, vals[j])]))>> >>)
      fall == FallOf(x)
      hasMissing == cls = "EFall"
      \* the class itself asks _missing_ when called
      callNote == IF c.mode = "python" /\ hasMissing THEN mnote ELSE Eff0
  IN IF c.mode = "python" /\ v.t = "enum" /\ v.c = cls THEN OkV(x, Exact)
     ELSE IF st /\ c.it = "python" THEN Err("is_instance_of", x, << <<"class", Str(cls)>> >>)
     ELSE Floor(
       IF i # 0 THEN OkV(mem[i], Exact)
       ELSE IF ci # 0 THEN OkV(mem[ci], Exact)
       ELSE IF ~hasMissing THEN expct
       ELSE IF c.mode = "python" /\ fall = "fall" THEN With(mnote, OkV(mem[1], Exact))
       ELSE With(callNote, With(mnote,
              IF fall = "fall" THEN OkV(mem[1], Exact)
              ELSE IF fall = "badfall" THEN ExcV("TypeError") ELSE expct)), Lax)

VIsInstance(s, x, c) ==
  IF c.mode # "python" THEN Err("needs_python_object", x, << <<"method_name", Str("isinstance")>> >>)
  ELSE LET cs == IF Has(s, "cls_list") THEN s.cls_list ELSE <<s.cls>>
           repr == IF Has(s, "cls_repr") THEN s.cls_repr ELSE s.cls IN
       IF \E i \in DOMAIN cs : IsInst(c.H, x, cs[i]) THEN OkV(x, Exact)
       ELSE Err("is_instance_of", x, << <<"class", Str(repr)>> >>)
VIsSubclass(s, x, c) ==
  LET v == Deref(c.H, x) IN
  IF c.mode # "python" THEN Err("needs_python_object", x, << <<"method_name", Str("issubclass")>> >>)
  ELSE IF v.t = "cls" /\ SubClass(v.c, s.cls) THEN OkV(x, Exact)
  ELSE Err("is_subclass_of", x, << <<"class", Str(IF Has(s, "cls_repr") THEN s.cls_repr ELSE s.cls)>> >>)
VCallable(s, x, c) ==
  LET v == Deref(c.H, x) IN
  IF c.mode = "python" /\ v.t \in {"cls", "fn"} THEN OkV(x, Lax) ELSE [Err0("callable_type", x) EXCEPT !.ex = Lax]

(*********************************** names **********************************)
NumCon(s) == \E k \in {"multiple_of", "le", "lt", "ge", "gt"} : Has(s, k)
Nm(s) ==
  LET t == s.type IN
  CASE t = "int" -> IF NumCon(s) THEN "constrained-int" ELSE "int"
    [] t = "float" -> IF NumCon(s) THEN "constrained-float" ELSE "float"
    [] t = "str" -> IF (\E k \in {"pattern", "min_length", "max_length"} : Has(s, k)) \/ (\E k \in {"strip_whitespace", "to_lower", "to_upper"} : Opt(s, k, FALSE))
                    THEN "constrained-str" ELSE "str"
    [] t = "bytes" -> IF Has(s, "min_length") \/ Has(s, "max_length") THEN "constrained-bytes" ELSE "bytes"
    [] t = "generator" -> "generator[" \o (IF HasItems(s) THEN Nm(s.items_schema) ELSE "any") \o "]"
    [] t = "list" -> "list[" \o (IF HasItems(s) THEN Nm(s.items_schema) ELSE "any") \o "]"
    [] t \in {"set", "frozenset"} -> t \o "[" \o (IF Has(s, "items_schema") THEN Nm(s.items_schema) ELSE "any") \o "]"
    [] t = "dict" -> "dict[" \o Nm(Opt(s, "keys_schema", [type |-> "any"])) \o "," \o Nm(Opt(s, "values_schema", [type |-> "any"])) \o "]"
    [] t = "tuple" ->
         LET ns == [i \in DOMAIN s.items_schema |-> Nm(s.items_schema[i])]
             k == IF Has(s, "variadic_item_index") THEN s.variadic_item_index + 1 ELSE 0 IN
         "tuple[" \o Join(IF k = 0 THEN ns ELSE SubSeq(ns, 1, k) \o <<"...">> \o SubSeq(ns, k + 1, Len(ns)), ", ") \o "]"
    [] t = "nullable" -> "nullable[" \o Nm(s.schema) \o "]"
    [] t = "default" -> "default[" \o Nm(s.schema) \o "]"
    [] t \in {"function-before", "function-after"} -> t \o "[" \o s.function.f \o "(), " \o Nm(s.schema) \o "]"
    [] t \in {"function-wrap", "function-plain"} -> t \o "[" \o s.function.f \o "()]"
    [] t = "chain" -> LET st == FlatChain(s.steps) IN
         IF Len(st) = 1 THEN Nm(st[1]) ELSE "chain[" \o Join([i \in DOMAIN st |-> Nm(st[i])], ",") \o "]"
    [] t = "union" -> IF Len(s.choices) = 1 /\ Opt(s, "auto_collapse", TRUE) THEN Nm(s.choices[1].schema)
                      ELSE "union[" \o Join([i \in DOMAIN s.choices |-> Label(s.choices[i])], ",") \o "]"
    [] t = "tagged-union" -> "tagged-union[" \o Join([i \in DOMAIN s.choices |-> Nm(s.choices[i].schema)], ",") \o "]"
    [] t = "literal" -> "literal[" \o Join([i \in DOMAIN s.expected |-> PyRepr(<<>>, s.expected[i])], ",") \o "]"
    [] t = "json" -> "json[" \o (IF Has(s, "schema") THEN Nm(s.schema) ELSE "any") \o "]"
    [] t = "lax-or-strict" -> "lax-or-strict[lax=" \o Nm(s.lax_schema) \o ",strict=" \o Nm(s.strict_schema) \o "]"
    [] t = "json-or-python" -> "json-or-python[json=" \o Nm(s.json_schema) \o ",python=" \o Nm(s.python_schema) \o "]"
    [] t = "typed-dict" -> Opt(s, "cls_name", "typed-dict")
    [] t = "model" -> s.cls
    [] t = "dataclass" -> Opt(s, "cls_name", s.cls)
    [] t = "dataclass-args" -> "dataclass-args[" \o s.dataclass_name \o "]"
    [] t = "is-instance" -> "is-instance[" \o (IF Has(s, "cls_repr") THEN s.cls_repr ELSE s.cls) \o "]"
    [] t = "is-subclass" -> "is-subclass[" \o (IF Has(s, "cls_repr") THEN s.cls_repr ELSE s.cls) \o "]"
    [] t = "enum" -> (IF s.cls = "EStr" THEN "str-" ELSE IF s.cls = "EInt" THEN "int-" ELSE IF s.cls = "EFlo" THEN "float-" ELSE "") \o "enum[" \o s.cls \o "]"
    [] t = "custom-error" -> "custom-error[" \o Nm(s.schema) \o "]"
    [] t = "call" -> "call[" \o s.function.f \o "]"
    [] t = "definitions" -> Nm(s.schema)
    [] OTHER -> t

(******************************* lazy iterators *****************************)
(* What iterating over an input yields, one item at a time.                    *)
OrdOf(ch) == 31 + IndexWhere(Chars(Ascii), LAMBDA a : a = ch)
SrcOf(x, c) ==
  LET v == Deref(c.H, x) e == Eff(v)
      fix(l) == [k |-> "seq", l |-> l, fail |-> -1]
      keys == [i \in DOMAIN v.d |-> v.d[i][1]]
      chars(s) == [i \in 1..Len(s) |-> Str(Ch(s, i))]
  IN IF c.mode = "strings" THEN [k |-> "not"]
     ELSE IF c.mode = "json" THEN
       IF v.t = "list" THEN fix(v.l) ELSE IF v.t = "str" THEN fix(chars(v.s)) ELSE IF v.t = "dict" THEN fix(keys) ELSE [k |-> "not"]
     ELSE IF v.t = "list" /\ x.t = "ref" THEN [k |-> "live", r |-> x.r]
     ELSE IF v.t = "src" THEN [k |-> "src", r |-> x.r]
     ELSE IF v.t \in {"list", "tuple", "set", "frozenset"} THEN fix(v.l)
     ELSE IF v.t = "itb" THEN [k |-> "seq", l |-> v.l, fail |-> v.fail]
     ELSE IF v.t \in {"dict", "map"} THEN fix(keys)
     ELSE IF StrLike(e) THEN fix(chars(e.s))
     ELSE IF v.t \in {"bytes", "bytessub", "bytearray"} THEN fix([i \in 1..Len(v.y) |-> IntV(OrdOf(Ch(v.y, i)))])
     ELSE [k |-> "not"]
(* Validating for a generator looks at no item: the iterator keeps the input,  *)
(* the items' schema and the context of the call for later.                    *)
VGenerator(s, x, c) ==
  LET src == SrcOf(x, c)
      inp == IF c.mode = "json" THEN List(src.l) ELSE x
  IN IF src.k = "not" THEN Err0("iterable_type", x)
     ELSE OkV([t |-> "vgen", idx |-> 0, at |-> 0, done |-> FALSE, src |-> src, inp |-> inp, s |-> s,
               c |-> [c EXCEPT !.H = <<>>, !.partial = "off", !.fn = ""]], Exact)
RECURSIVE HasGen(_)
HasGen(v) == CASE v.t = "vgen" -> TRUE
               [] v.t \in {"list", "tuple", "set", "frozenset"} -> \E i \in DOMAIN v.l : HasGen(v.l[i])
               [] v.t \in {"dict", "map"} -> \E i \in DOMAIN v.d : HasGen(v.d[i][2])
               [] v.t = "inst" -> (\E i \in DOMAIN v.d : HasGen(v.d[i][2])) \/ (\E i \in DOMAIN v.x : HasGen(v.x[i][2]))
               [] OTHER -> FALSE
(* One step of the source: an item, the end, or an exception of its own        *)
Advance(g, H) ==
  LET src == g.src IN
  CASE src.k = "seq" ->
         IF g.done THEN [k |-> "stop", g |-> g, H |-> H]
         ELSE IF g.at = src.fail THEN [k |-> "exc", g |-> [g EXCEPT !.done = TRUE], H |-> H]
         ELSE IF g.at < Len(src.l) THEN [k |-> "item", v |-> src.l[g.at + 1], g |-> [g EXCEPT !.at = @ + 1], H |-> H]
         ELSE [k |-> "stop", g |-> [g EXCEPT !.done = TRUE], H |-> H]
    [] src.k = "live" ->
         IF g.done \/ g.at >= Len(H[src.r].l) THEN [k |-> "stop", g |-> [g EXCEPT !.done = TRUE], H |-> H]
         ELSE [k |-> "item", v |-> H[src.r].l[g.at + 1], g |-> [g EXCEPT !.at = @ + 1], H |-> H]
    [] src.k = "src" ->
         LET o == H[src.r]
             n == o.at - (IF o.fail >= 0 /\ o.at > o.fail THEN 1 ELSE 0)
             H2 == [H EXCEPT ![src.r].at = @ + 1]
         IN IF o.at = o.fail THEN [k |-> "exc", g |-> g, H |-> H2]
            ELSE IF n < Len(o.l) THEN [k |-> "item", v |-> o.l[n + 1], g |-> g, H |-> H2]
            ELSE [k |-> "stop", g |-> g, H |-> H2]
(* One step of the validating iterator                                         *)
Pull(g0, H0) ==
  LET a == Advance(g0, H0) g == a.g s == g.s
      hi == Opt(s, "max_length", -1) lo == Opt(s, "min_length", 0)
      g2 == IF a.k = "item" THEN [g EXCEPT !.idx = @ + 1] ELSE g
      res(r) == [r |-> r, g |-> g2, H |-> a.H]
      items == Opt(s, "items_schema", [type |-> "any"])
  IN CASE a.k = "exc" -> res(ExcV("RuntimeError"))
       [] a.k = "stop" ->
            IF g.idx < lo THEN res(Err("too_short", g.inp, << <<"actual_length", IntV(g.idx)>>, <<"field_type", Str("Generator")>>, <<"min_length", IntV(lo)>> >>))
            ELSE res(OkV(Tuple(<<Str("stop")>>), Exact))
       [] a.k = "item" ->
            IF hi >= 0 /\ g.idx >= hi
            THEN res(Err("too_long", g.inp, << <<"actual_length", None>>, <<"field_type", Str("Generator")>>, <<"max_length", IntV(hi)>> >>))
            ELSE LET r == V(items, a.v, [g.c EXCEPT !.H = a.H]) IN
                 res(IF r.k = "ok" THEN [r EXCEPT !.v = Tuple(<<Str("item"), @>>)] ELSE OuterLoc(r, <<LocN(g.idx)>>))

(******************************** the relation ******************************)
V(s, x, c) ==
  LET t == s.type IN
  CASE t \in ScalarTypes -> VScalar(s, IF t = "any" THEN ToObj(x, c) ELSE IF Deref(c.H, x).t \in {"bytearray"} THEN Deref(c.H, x) ELSE x, c)
    [] t \in TimeTypes -> VTemporal(s, IF Deref(c.H, x).t \in {"bytearray"} THEN Deref(c.H, x) ELSE x, c)
    [] t = "list" -> VList(s, x, c)
    [] t \in {"set", "frozenset"} -> VSet(s, x, c)
    [] t = "tuple" -> VTuple(s, x, c)
    [] t = "dict" -> VDict(s, x, c)
    [] t = "union" -> VUnion(s, x, c)
    [] t = "tagged-union" -> VTagged(s, x, c)
    [] t = "literal" -> VLiteral(s, x, c)
    [] t = "enum" -> VEnum(s, x, c)
    [] t = "nullable" -> IF x.t = "none" THEN OkV(None, Exact) ELSE V(s.schema, x, c)
    [] t = "default" -> VDefault(s, x, c)
    [] t \in {"function-plain", "function-before", "function-after", "function-wrap"} -> VFunction(s, x, c)
    [] t = "chain" -> ChainFrom(FlatChain(s.steps), 1, x, c)
    [] t = "lax-or-strict" -> VLaxStrict(s, x, c)
    [] t = "json-or-python" -> V(IF c.it = "python" THEN s.python_schema ELSE s.json_schema, x, c)
    [] t = "custom-error" -> LET r == V(s.schema, x, c) IN IF IsOk(r) THEN r ELSE With(r, CustomErr(s, x))
    [] t = "json" -> VJson(s, x, c)
    [] t = "model" -> VModel(s, x, c)
    [] t = "model-fields" -> VModelFields(s, x, c)
    [] t = "typed-dict" -> VTypedDict(s, x, c)
    [] t = "dataclass" -> VDataclass(s, x, c)
    [] t = "dataclass-args" -> VDataclassArgs(s, x, c)
    [] t = "arguments" -> VArguments(s, x, c)
    [] t = "call" -> VCall(s, x, c)
    [] t = "generator" -> VGenerator(s, x, c)
    [] t = "is-instance" -> VIsInstance(s, x, c)
    [] t = "is-subclass" -> VIsSubclass(s, x, c)
    [] t = "callable" -> VCallable(s, x, c)
    [] t = "definitions" -> V(s.schema, x, [c EXCEPT !.defs = @ \o [i \in DOMAIN s.definitions |-> [ref |-> s.definitions[i].ref, s |-> s.definitions[i], cfg |-> c.cfg]]])
    [] t = "definition-ref" -> VDefRef(s, x, c)
=============================================================================
