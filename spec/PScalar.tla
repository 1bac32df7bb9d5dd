------------------------------ MODULE PScalar -------------------------------
(* Scalar coercion: what bool, int, float, str, bytes, none and any schemas  *)
(* make of every input kind, in Python, JSON, string and JSON-key mode.       *)
EXTENDS PVal

(* exactness of a match *)
Lax == 0
Strict == 1
Exact == 2

(* Uniform result record of the validation function.                         *)
(*  k: "ok" | "errs" | "omit" | "usedefault" | "exc"                          *)
(*  fs: -1 or number of explicitly set fields, log: user function events,     *)
(*  hp: writes to heap cells (initialised or assigned instances)              *)
Res(k, v, errs, exc, ex, fs, log) ==
  [k |-> k, v |-> v, errs |-> errs, exc |-> exc, ex |-> ex, fs |-> fs, log |-> log, hp |-> <<>>]
OkV(v, ex) == Res("ok", v, <<>>, "", ex, -1, <<>>)
Err(ty, x, ctx) == Res("errs", None, << [ty |-> ty, loc |-> <<>>, inp |-> x, ctx |-> ctx] >>, "", Exact, -1, <<>>)
Err0(ty, x) == Err(ty, x, <<>>)
IsOk(r) == r.k = "ok"

(* A str/int/float-based enum member behaves as an instance of a subclass.   *)
Eff(v) ==
  IF v.t # "enum" THEN v
  ELSE LET b == EnumBase(v) w == EnumVal(v) IN
       IF b = "str" THEN [t |-> "strsub", s |-> w.s]
       ELSE IF b = "int" THEN [t |-> "intsub", i |-> w.i]
       ELSE IF b = "float" THEN [t |-> "floatsub", q |-> w.q]
       ELSE v

(********************************* str -> x *********************************)
BoolOfStr(s) ==
  LET l == Lower(s) IN
  IF s = "0" \/ l \in {"f","n","no","off","false"} THEN "F"
  ELSE IF s = "1" \/ l \in {"t","y","on","yes","true"} THEN "T" ELSE "bad"

StripUnd(s) == IF StartsCh(s,"_") \/ EndsCh(s,"_") \/ CountCh(s,"_") = 0 \/ Contains(s,"__")
               THEN [ok |-> FALSE, s |-> s] ELSE [ok |-> TRUE, s |-> RemoveCh(s, "_")]
(* an integer literal as JSON writes it *)
JsonInt(s) ==
  LET neg == StartsCh(s,"-") d == IF neg THEN From(s,2) ELSE s IN
  [ok |-> Len(d) > 0 /\ AllIn(d, Digits) /\ (Len(d) = 1 \/ ~StartsCh(d,"0")), neg |-> neg, d |-> d]
(* leading zeros (and underscores between them) carry no value               *)
RECURSIVE SkipZ(_, _)
SkipZ(s, i) ==
  IF i > Len(s) THEN [ok |-> TRUE, s |-> Ch(s, Len(s))]
  ELSE IF Ch(s,i) \in {"0","_"} THEN SkipZ(s, i+1)
  ELSE IF Ch(s,i) \in Digits THEN [ok |-> TRUE, s |-> From(s,i)]
  ELSE IF Ch(s,i) = "." THEN [ok |-> TRUE, s |-> From(s,i-1)]
  ELSE [ok |-> FALSE, s |-> s]
LeadZ(s) == IF Len(s) = 0 THEN [ok |-> FALSE, s |-> s]
            ELSE IF Ch(s,1) = "0" THEN SkipZ(s, 2)
            ELSE IF Ch(s,1) \in Digits THEN [ok |-> TRUE, s |-> s]
            ELSE [ok |-> FALSE, s |-> s]
NoInt == [k |-> "parsing", neg |-> FALSE, d |-> ""]
MaxDigits == 4300
OfJsonInt(j) == IF Len(j.d) > MaxDigits THEN [k |-> "size", neg |-> FALSE, d |-> ""]
                ELSE [k |-> "ok", neg |-> j.neg, d |-> j.d]
IntOfStr(s0) ==
  LET j0 == JsonInt(s0) IN
  IF j0.ok THEN OfJsonInt(j0)
  ELSE
  LET s1 == Trim(s0)
      plus == StartsCh(s1,"+")
      s2 == IF plus THEN From(s1,2) ELSE s1
      bad1 == plus /\ StartsCh(s2,"-")
      neg == StartsCh(s2,"-")
      s3 == IF neg THEN From(s2,2) ELSE s2
      bad2 == neg /\ (StartsCh(s3,"-") \/ StartsCh(s3,"+"))
      lz == LeadZ(s3)
      dot == FindCh(lz.s,".")
      dec == IF dot = 0 THEN "" ELSE From(lz.s, dot+1)
      s5 == IF dot # 0 /\ Len(dec) > 0 /\ AllIn(dec,{"0"}) THEN UpTo(lz.s, dot-1) ELSE lz.s
      und == StripUnd(s5)
      body == IF und.ok THEN und.s ELSE s5
      j == JsonInt((IF neg THEN "-" ELSE "") \o body)
  IN IF bad1 \/ bad2 \/ ~lz.ok THEN NoInt
     ELSE IF ~und.ok /\ Len(s5) = Len(s0) THEN NoInt
     ELSE IF j.ok /\ Len(j.d) <= MaxDigits THEN [k |-> "ok", neg |-> j.neg, d |-> j.d]
     ELSE NoInt
FloatOfStr(s) ==
  LET p == ParseDec(Trim(s)) IN
  IF p.ok THEN p
  ELSE LET u == StripUnd(s) IN IF u.ok THEN ParseDec(u.s) ELSE BadDec

(***************************** number -> x **********************************)
NumStr(v) == (IF IntNeg(v) THEN "-" ELSE "") \o IntDig(v)
QStr(q) == LET a == IF q < 0 THEN 0 - q ELSE q
               f == a % 4
           IN (IF q < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o
              (IF f = 0 THEN ".0" ELSE IF f = 1 THEN ".25" ELSE IF f = 2 THEN ".5" ELSE ".75")
(* repr of a float; rust: Display of f64 *)
FloatStr(v, rust) ==
  CASE v.t \in {"float","floatsub"} ->
         IF rust /\ v.q % 4 = 0 THEN ToString(v.q \div 4) ELSE QStr(v.q)
    [] v.t = "fbig" -> (IF v.neg THEN "-" ELSE "") \o
         (IF rust \/ Len(v.d) <= 16 THEN v.d \o (IF rust THEN "" ELSE ".0")
          ELSE LET m == StripZR(v.d) IN
               Ch(m,1) \o (IF Len(m) = 1 THEN "" ELSE "." \o From(m,2)) \o "e+" \o ToString(Len(v.d) - 1))
    [] v.t = "fopq" -> v.r
    [] v.t = "fsp" -> IF rust THEN (IF v.k = "nan" THEN "NaN" ELSE IF v.k = "-0.0" THEN "-0" ELSE v.k)
                      ELSE v.k
(* float -> int : "ok" or the error type *)
FloatAsInt(v) ==
  IF ~NumIsFinite(v) THEN [k |-> "finite_number", v |-> None]
  ELSE IF ~NumIsWhole(v) THEN [k |-> "int_from_float", v |-> None]
  ELSE LET x == Num(v) IN
       IF DCmp(x.d, I64MIN) < 0 THEN [k |-> "ok", v |-> MkInt(x.neg, x.d)]
       ELSE [k |-> "int_parsing_size", v |-> None]
DecParts(v) == ParseDec(v.s)
DecFloat(v) == MkFloatDec(DecParts(v))

(* text of a str/bytes input, if it is one *)
IsText(e) == e.t \in {"str","strsub","bytes","bytessub"}
TextOk(e) == StrLike(e) \/ e.u
TextOf(e) == IF StrLike(e) THEN e.s ELSE e.y
Utf8N == [i \in {Data.utf8[j][1] : j \in DOMAIN Data.utf8} |-> (CHOOSE p \in Range(Data.utf8) : p[1] = i)[2]]
RECURSIVE Utf8Len(_)
Utf8Len(s) == IF Len(s) = 0 THEN 0 ELSE (IF Ch(s,1) \in DOMAIN Utf8N THEN Utf8N[Ch(s,1)] ELSE 1) + Utf8Len(From(s,2))
BytesLen(v) == IF v.u THEN Utf8Len(v.y) ELSE Len(v.y) \div 2

OkAs(v, ex, strictness) == OkV(v, ex)
(******************************** validators ********************************)
IntOfText(s, x, ex) ==
  LET r == IntOfStr(s) IN
  IF r.k = "ok" THEN OkV(MkInt(r.neg, r.d), ex)
  ELSE IF r.k = "size" THEN Err0("int_parsing_size", x) ELSE Err0("int_parsing", x)
BoolOfText(s, x, ex) ==
  LET r == BoolOfStr(s) IN
  IF r = "bad" THEN Err0("bool_parsing", x) ELSE OkV(Bool(r = "T"), ex)
FloatOfText(s, x, ex) ==
  LET p == FloatOfStr(s) IN
  IF p.ok THEN OkV(MkFloatDec(p), ex) ELSE Err0("float_parsing", x)
ToIntSub(e) == IF e.t = "intsub" THEN IntV(e.i) ELSE e

ValBool(x, strict, mode) ==
  LET e == Eff(x) IN
  IF mode = "jkey" THEN BoolOfText(e.s, x, Lax)
  ELSE IF mode = "strings" THEN IF StrLike(e) THEN BoolOfText(e.s, x, Strict) ELSE Err0("bool_type", x)
  ELSE IF e.t = "bool" THEN OkV(e, Exact)
  ELSE IF strict THEN Err0("bool_type", x)
  ELSE IF IsText(e) THEN IF TextOk(e) THEN BoolOfText(TextOf(e), x, Lax) ELSE Err0("bool_parsing", x)
  ELSE IF e.t \in {"int","intsub"} THEN
       IF e.i \in {0,1} THEN OkV(Bool(e.i = 1), Lax) ELSE Err0("bool_parsing", x)
  ELSE IF e.t = "big" THEN
       (* a machine integer is a number that is neither 0 nor 1; a longer one is no match
          (the JSON parser already keeps 19 digits and more as a big integer) *)
       IF InI64(e) /\ (mode # "json" \/ Len(e.d) < 19) THEN Err0("bool_parsing", x) ELSE Err0("bool_type", x)
  ELSE IF e.t \in FltTags \/ (e.t = "dec" /\ mode = "python") THEN
       LET f == FloatAsInt(IF e.t = "dec" THEN DecFloat(e) ELSE e) IN
       IF f.k # "ok" THEN Err0("bool_type", x)
       ELSE IF f.v \in {IntV(0), IntV(1)} THEN OkV(Bool(f.v = IntV(1)), Lax) ELSE Err0("bool_parsing", x)
  ELSE Err0("bool_type", x)

ValInt(x, strict, mode) ==
  LET e == Eff(x) IN
  IF mode = "jkey" THEN IntOfText(e.s, x, Lax)
  ELSE IF mode = "strings" THEN IF StrLike(e) THEN IntOfText(e.s, x, Strict) ELSE Err0("int_type", x)
  ELSE IF e.t \in {"int","big"} THEN OkV(e, Exact)
  ELSE IF e.t = "intsub" THEN OkV(IntV(e.i), Strict)
  ELSE IF strict THEN Err0("int_type", x)
  ELSE IF e.t = "bool" THEN OkV(IntV(IF e.b THEN 1 ELSE 0), Lax)
  ELSE IF IsText(e) THEN IF TextOk(e) THEN IntOfText(TextOf(e), x, Lax) ELSE Err0("int_parsing", x)
  ELSE IF e.t \in FltTags THEN
       LET f == FloatAsInt(e) IN IF f.k = "ok" THEN OkV(f.v, Lax) ELSE Err0(f.k, x)
  ELSE IF e.t = "dec" THEN
       LET p == DecParts(e) IN
       IF p.k # "" THEN Err0("finite_number", x)
       ELSE IF p.fd # "" THEN Err0("int_from_float", x) ELSE OkV(MkInt(p.neg, p.id), Lax)
  ELSE IF e.t = "enum" /\ EnumVal(e).t \in {"int","big"} THEN OkV(EnumVal(e), Lax)
  ELSE Err0("int_type", x)

ValFloat(x, strict, mode) ==
  LET e == Eff(x) IN
  IF mode = "jkey" THEN FloatOfText(e.s, x, Lax)
  ELSE IF mode = "strings" THEN IF StrLike(e) THEN FloatOfText(e.s, x, Strict) ELSE Err0("float_type", x)
  ELSE IF e.t \in FltTags THEN OkV(IF e.t = "floatsub" THEN MkFloatQ(e.q) ELSE e, IF e.t = "floatsub" THEN Strict ELSE Exact)
  ELSE IF ~strict /\ IsText(e) THEN IF TextOk(e) THEN FloatOfText(TextOf(e), x, Lax) ELSE Err0("float_parsing", x)
  ELSE IF e.t = "bool" THEN IF strict THEN Err0("float_type", x) ELSE OkV(IntToFloat(e), Lax)
  ELSE IF e.t \in IntTags THEN OkV(IntToFloat(e), Strict)
  ELSE IF e.t = "dec" /\ mode = "python" THEN OkV(DecFloat(e), Strict)
  ELSE Err0("float_type", x)

ValStr(x, strict, coerce, mode) ==
  LET e == Eff(x) IN
  IF mode \in {"jkey","strings"} THEN IF StrLike(e) THEN OkV(Str(e.s), Strict) ELSE Err0("string_type", x)
  ELSE IF mode = "json" THEN
       IF e.t = "str" THEN OkV(e, Strict)
       ELSE IF ~strict /\ coerce /\ e.t \in {"int","big"} THEN OkV(Str(NumStr(e)), Lax)
       ELSE IF ~strict /\ coerce /\ e.t \in FltTags THEN OkV(Str(FloatStr(e, TRUE)), Lax)
       ELSE Err0("string_type", x)
  ELSE IF e.t = "str" THEN OkV(e, Exact)
  ELSE IF e.t = "strsub" THEN OkV(Str(e.s), Strict)
  ELSE IF strict THEN Err0("string_type", x)
  ELSE IF e.t \in {"bytes","bytessub","bytearray"} THEN
       IF e.u THEN OkV(Str(e.y), Lax) ELSE Err0("string_unicode", x)
  ELSE IF coerce /\ e.t \in {"int","big"} THEN OkV(Str(NumStr(e)), Lax)
  ELSE IF coerce /\ e.t = "intsub" THEN OkV(Str(IF x.t = "enum" THEN EnumRec(x.c).c \o "." \o x.n ELSE NumStr(e)), Lax)
  ELSE IF coerce /\ e.t \in FltTags THEN OkV(Str(IF x.t = "enum" THEN EnumRec(x.c).c \o "." \o x.n ELSE FloatStr(e, FALSE)), Lax)
  ELSE IF coerce /\ e.t = "dec" THEN OkV(Str(e.s), Lax)
  ELSE IF e.t = "intsub" /\ x.t = "enum" THEN OkV(Str(NumStr(e)), Lax)
  ELSE IF e.t = "floatsub" /\ x.t = "enum" THEN OkV(Str(FloatStr(e, FALSE)), Lax)
  ELSE IF e.t = "enum" THEN
       LET w == EnumVal(e) IN
       OkV(Str(IF w.t = "str" THEN w.s ELSE IF w.t \in IntTags THEN NumStr(w)
               ELSE IF w.t \in FltTags THEN FloatStr(w, FALSE)
               ELSE IF w.t = "bool" THEN (IF w.b THEN "True" ELSE "False") ELSE "None"), Lax)
  ELSE Err0("string_type", x)

ValBytes(x, strict, mode) ==
  LET e == Eff(x) IN
  IF mode = "python" THEN
     IF e.t = "bytes" THEN OkV(x, Exact)
     ELSE IF e.t = "bytessub" THEN OkV(x, Strict)
     ELSE IF strict THEN Err0("bytes_type", x)
     ELSE IF StrLike(e) THEN OkV([t |-> "bytes", y |-> e.s, u |-> TRUE], Lax)
     ELSE IF e.t = "bytearray" THEN OkV([t |-> "bytes", y |-> e.y, u |-> e.u], Lax)
     ELSE Err0("bytes_type", x)
  ELSE IF StrLike(e) THEN OkV([t |-> "bytes", y |-> e.s, u |-> TRUE], Strict) ELSE Err0("bytes_type", x)

(******************************** constraints *******************************)
(* schema setting, else configuration setting, else default *)
SC(s, cfg, k, ck, d) == IF Has(s, k) THEN s[k] ELSE IF Has(cfg, ck) THEN cfg[ck] ELSE d
IsStrict(s, c) == IF c.strict # "none" THEN c.strict = "true" ELSE SC(s, c.cfg, "strict", "strict", FALSE)

Lt(a, b) == NumCmp(a, b) = -1
Le(a, b) == NumCmp(a, b) \in {-1, 0}
IntMultiple(v, m) ==
  IF v.t # "big" /\ m.t # "big" THEN
     IF m.i = 0 THEN FALSE ELSE (IF v.i < 0 THEN 0 - v.i ELSE v.i) % (IF m.i < 0 THEN 0 - m.i ELSE m.i) = 0
  ELSE IF m.t # "big" THEN
     IF m.i = 0 THEN FALSE ELSE DMod(v.d, IF m.i < 0 THEN 0 - m.i ELSE m.i) = 0
  ELSE IntDig(v) = "0" \/ IntDig(v) = m.d
FloatMultiple(v, m) ==
  ~NumIsFinite(v) \/ m.q = 0 \/
  (v.t \in {"float","fsp"} /\
   LET a == IF v.t = "fsp" THEN 0 ELSE IF v.q < 0 THEN 0 - v.q ELSE v.q
       b == IF m.q < 0 THEN 0 - m.q ELSE m.q IN a % b = 0)
Keep(r, e) == [e EXCEPT !.ex = r.ex]
Bounds(s, v, r, x) ==
  IF Has(s, "le") /\ ~Le(v, s.le) THEN Keep(r, Err("less_than_equal", x, <<<<"le", s.le>>>>))
  ELSE IF Has(s, "lt") /\ ~Lt(v, s.lt) THEN Keep(r, Err("less_than", x, <<<<"lt", s.lt>>>>))
  ELSE IF Has(s, "ge") /\ ~Le(s.ge, v) THEN Keep(r, Err("greater_than_equal", x, <<<<"ge", s.ge>>>>))
  ELSE IF Has(s, "gt") /\ ~Lt(s.gt, v) THEN Keep(r, Err("greater_than", x, <<<<"gt", s.gt>>>>))
  ELSE r
VInt(s, x, c) ==
  LET r == ValInt(x, IsStrict(s, c), c.mode) IN
  IF ~IsOk(r) THEN r
  ELSE IF Has(s, "multiple_of") /\ ~IntMultiple(r.v, s.multiple_of)
       THEN Keep(r, Err("multiple_of", x, <<<<"multiple_of", s.multiple_of>>>>))
  ELSE Bounds(s, r.v, r, x)
VFloat(s, x, c) ==
  LET r == ValFloat(x, IsStrict(s, c), c.mode) IN
  IF ~IsOk(r) THEN r
  ELSE IF r.v.t = "wfloat" THEN r
  ELSE IF ~SC(s, c.cfg, "allow_inf_nan", "allow_inf_nan", TRUE) /\ ~NumIsFinite(r.v)
       THEN Keep(r, Err0("finite_number", x))
  ELSE IF Has(s, "multiple_of") /\ ~FloatMultiple(r.v, s.multiple_of)
       THEN Keep(r, Err("multiple_of", x, <<<<"multiple_of", s.multiple_of>>>>))
  ELSE Bounds(s, r.v, r, x)

(* A small regular-expression matcher: atoms with repetition, optional anchors *)
(* ast: [b: anchored at start, e: anchored at end, a: seq of [cs, any, lo, hi]] *)
AtomIs(a, ch) == IF a.any THEN ch # "\n" ELSE IF a.not THEN ch \notin Range(a.cs) ELSE ch \in Range(a.cs)
RECURSIVE Rx(_, _, _, _, _)
Rx(ast, k, n, s, i) ==
  IF k > Len(ast.a) THEN ~ast.e \/ i = Len(s) + 1 \/ (ast.nl /\ i = Len(s) /\ Ch(s,i) = "\n")
  ELSE LET a == ast.a[k] IN
       \/ n >= a.lo /\ Rx(ast, k+1, 0, s, i)
       \/ i <= Len(s) /\ n < a.hi /\ AtomIs(a, Ch(s,i)) /\ Rx(ast, k, n+1, s, i+1)
RxSearch(ast, s) == IF ast.b THEN Rx(ast, 1, 0, s, 1) ELSE \E i \in 1..(Len(s)+1) : Rx(ast, 1, 0, s, i)

VStr(s, x, c) ==
  LET r == ValStr(x, IsStrict(s, c), SC(s, c.cfg, "coerce_numbers_to_str", "coerce_numbers_to_str", FALSE), c.mode)
      lo == SC(s, c.cfg, "min_length", "str_min_length", -1)
      hi == SC(s, c.cfg, "max_length", "str_max_length", -1)
      txt == IF SC(s, c.cfg, "strip_whitespace", "str_strip_whitespace", FALSE) THEN Trim(r.v.s) ELSE r.v.s
  IN IF ~IsOk(r) THEN r
     ELSE IF lo >= 0 /\ Len(txt) < lo THEN Keep(r, Err("string_too_short", x, <<<<"min_length", IntV(lo)>>>>))
     ELSE IF hi >= 0 /\ Len(txt) > hi THEN Keep(r, Err("string_too_long", x, <<<<"max_length", IntV(hi)>>>>))
     ELSE IF Has(s, "pattern") /\
             ~RxSearch([s.pattern EXCEPT !.nl = s.pattern.comp \/ SC(s, c.cfg, "regex_engine", "regex_engine", "rust-regex") = "python-re"], txt)
          THEN Keep(r, Err("string_pattern_mismatch", x, <<<<"pattern", Str(s.pattern.src)>>>>))
     ELSE [r EXCEPT !.v = Str(
            IF SC(s, c.cfg, "to_lower", "str_to_lower", FALSE) THEN Lower(txt)
            ELSE IF SC(s, c.cfg, "to_upper", "str_to_upper", FALSE) THEN Upper(txt) ELSE txt)]
VBytes(s, x, c) ==
  LET r == ValBytes(x, IsStrict(s, c), c.mode) IN
  IF ~IsOk(r) THEN r
  ELSE IF Has(s, "min_length") /\ BytesLen(r.v) < s.min_length
       THEN Keep(r, Err("bytes_too_short", x, <<<<"min_length", IntV(s.min_length)>>>>))
  ELSE IF Has(s, "max_length") /\ BytesLen(r.v) > s.max_length
       THEN Keep(r, Err("bytes_too_long", x, <<<<"max_length", IntV(s.max_length)>>>>))
  ELSE r
VBool(s, x, c) == ValBool(x, IsStrict(s, c), c.mode)
VNone(s, x, c) == IF x.t = "none" /\ c.mode # "jkey" THEN OkV(None, Exact) ELSE Err0("none_required", x)
VAny(s, x, c) == OkV(x, Strict)
ScalarTypes == {"bool", "int", "float", "str", "bytes", "none", "any"}
VScalar(s, x, c) ==
  CASE s.type = "bool" -> VBool(s, x, c)
    [] s.type = "int" -> VInt(s, x, c)
    [] s.type = "float" -> VFloat(s, x, c)
    [] s.type = "str" -> VStr(s, x, c)
    [] s.type = "bytes" -> VBytes(s, x, c)
    [] s.type = "none" -> VNone(s, x, c)
    [] s.type = "any" -> VAny(s, x, c)
=============================================================================
