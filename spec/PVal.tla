-------------------------------- MODULE PVal --------------------------------
(* Values, strings, numbers and equality shared by every part of the model.   *)
(*                                                                            *)
(* A value is a tagged record.  Mutable containers and instances that belong  *)
(* to the caller (or to the schema) live in a heap and are mentioned through  *)
(* [t |-> "ref", r |-> n]; everything a call creates is written inline, so    *)
(* comparing two values also compares identity and sharing.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Data == JsonDeserialize("data.json")

(***************************** generic helpers ******************************)
Has(r, k) == k \in DOMAIN r
Opt(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Range(s) == {s[i] : i \in DOMAIN s}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE FlatN(_, _)
FlatN(ss, n) == IF n = 0 THEN <<>> ELSE FlatN(ss, n - 1) \o ss[n]
Flat(ss) == FlatN(ss, Len(ss))
RECURSIVE FilterN(_, _, _)
FilterN(s, T(_), n) == IF n = 0 THEN <<>>
                       ELSE FilterN(s, T, n - 1) \o (IF T(s[n]) THEN <<s[n]>> ELSE <<>>)
Filter(s, T(_)) == FilterN(s, T, Len(s))
IndexWhere(s, T(_)) == IF \E i \in DOMAIN s : T(s[i])
                       THEN CHOOSE i \in DOMAIN s : T(s[i]) /\ \A j \in 1..(i-1) : ~T(s[j])
                       ELSE 0
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(********************************* strings **********************************)
Ch(s, i) == SubSeq(s, i, i)
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Spaces == Range(Data.spaces)
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s,1) \in Spaces THEN TrimL(SubSeq(s,2,Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Ch(s,Len(s)) \in Spaces THEN TrimR(SubSeq(s,1,Len(s)-1)) ELSE s
Trim(s) == TrimR(TrimL(s))
AllIn(s, S) == \A i \in 1..Len(s) : Ch(s,i) \in S
CountCh(s, c) == Cardinality({i \in 1..Len(s) : Ch(s,i) = c})
FindCh(s, c) == IF \E i \in 1..Len(s) : Ch(s,i) = c
                THEN CHOOSE i \in 1..Len(s) : Ch(s,i) = c /\ \A j \in 1..(i-1) : Ch(s,j) # c
                ELSE 0
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
StartsCh(s, c) == Len(s) > 0 /\ Ch(s,1) = c
EndsCh(s, c) == Len(s) > 0 /\ Ch(s,Len(s)) = c
LowerMap == [i \in {Data.casing[j][1] : j \in DOMAIN Data.casing} |->
               (CHOOSE p \in Range(Data.casing) : p[1] = i)[2]]
UpperMap == [i \in {Data.casing[j][1] : j \in DOMAIN Data.casing} |->
               (CHOOSE p \in Range(Data.casing) : p[1] = i)[3]]
RECURSIVE MapStr(_, _)
MapStr(s, M) == IF Len(s) = 0 THEN ""
                ELSE (IF Ch(s,1) \in DOMAIN M THEN M[Ch(s,1)] ELSE Ch(s,1)) \o MapStr(From(s,2), M)
Lower(s) == MapStr(s, LowerMap)
Upper(s) == MapStr(s, UpperMap)
RECURSIVE RemoveCh(_, _)
RemoveCh(s, c) == IF Len(s) = 0 THEN ""
                  ELSE (IF Ch(s,1) = c THEN "" ELSE Ch(s,1)) \o RemoveCh(From(s,2), c)
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                 ELSE ss[1] \o sep \o Join(Tail(ss), sep)
RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n-1)
(* the characters of a string as a sequence of one-character strings *)
Chars(s) == [i \in 1..Len(s) |-> Ch(s,i)]

(********************************** digits **********************************)
DigVal == [d \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = d]
RECURSIVE DigInt(_)
DigInt(s) == IF Len(s) = 0 THEN 0 ELSE DigInt(UpTo(s, Len(s)-1)) * 10 + DigVal[Ch(s,Len(s))]
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ Ch(s,1) = "0" THEN StripZ(From(s,2)) ELSE s
RECURSIVE StripZR(_)
StripZR(s) == IF Len(s) > 0 /\ Ch(s,Len(s)) = "0" THEN StripZR(UpTo(s,Len(s)-1)) ELSE s
(* compare two digit strings without leading zeros *)
DCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE IF a = b THEN 0
              ELSE LET i == CHOOSE k \in 1..Len(a) : Ch(a,k) # Ch(b,k) /\ UpTo(a,k-1) = UpTo(b,k-1)
                   IN IF DigVal[Ch(a,i)] < DigVal[Ch(b,i)] THEN -1 ELSE 1
RECURSIVE DModN(_, _, _, _)
DModN(s, i, m, acc) == IF i > Len(s) THEN acc ELSE DModN(s, i+1, m, (acc * 10 + DigVal[Ch(s,i)]) % m)
DMod(s, m) == DModN(s, 1, m, 0)
I64MAX == "9223372036854775807"
I64MIN == "9223372036854775808"

(********************************** values **********************************)
None == [t |-> "none"]
Bool(b) == [t |-> "bool", b |-> b]
Str(s) == [t |-> "str", s |-> s]
IntV(n) == [t |-> "int", i |-> n]
Ref(n) == [t |-> "ref", r |-> n]
List(l) == [t |-> "list", l |-> l]
Tuple(l) == [t |-> "tuple", l |-> l]
Dict(d) == [t |-> "dict", d |-> d]
Undefined == [t |-> "undef"]
(* canonical integer from sign and digit string *)
MkInt(neg, digs) ==
  LET d == StripZ(digs) IN
  IF Len(d) <= 9 THEN IntV(IF neg THEN 0 - DigInt(d) ELSE DigInt(d))
  ELSE [t |-> "big", neg |-> neg, d |-> d]
IntTags == {"int", "big", "intsub"}
IntNeg(v) == IF v.t = "big" THEN v.neg ELSE v.i < 0
IntDig(v) == IF v.t = "big" THEN v.d ELSE ToString(IF v.i < 0 THEN 0 - v.i ELSE v.i)
InI64(v) == v.t # "big" \/ (IF v.neg THEN DCmp(v.d, I64MIN) <= 0 ELSE DCmp(v.d, I64MAX) <= 0)

(* floats: quarter multiples, big whole numbers, opaque fractions, specials *)
FltTags == {"float", "fbig", "fopq", "fsp", "floatsub"}
NumTags == {"bool"} \cup IntTags \cup FltTags
FspFinite(v) == v.k = "-0.0"
(* [fin, neg, d: integer digits, q: floor quarter of the fraction, r: opaque repr] *)
Num(v) ==
  CASE v.t = "bool" -> [fin |-> TRUE, neg |-> FALSE, d |-> IF v.b THEN "1" ELSE "0", q |-> 0, r |-> "", k |-> ""]
    [] v.t \in {"int","intsub"} -> [fin |-> TRUE, neg |-> v.i < 0, d |-> IntDig(v), q |-> 0, r |-> "", k |-> ""]
    [] v.t = "big" -> [fin |-> TRUE, neg |-> v.neg, d |-> v.d, q |-> 0, r |-> "", k |-> ""]
    [] v.t \in {"float","floatsub"} ->
         LET a == IF v.q < 0 THEN 0 - v.q ELSE v.q IN
         [fin |-> TRUE, neg |-> v.q < 0, d |-> ToString(a \div 4), q |-> a % 4, r |-> "", k |-> ""]
    [] v.t = "fbig" -> [fin |-> TRUE, neg |-> v.neg, d |-> v.d, q |-> 0, r |-> "", k |-> ""]
    [] v.t = "fopq" -> [fin |-> TRUE, neg |-> v.neg, d |-> v.d, q |-> v.q, r |-> v.r, k |-> ""]
    [] v.t = "fsp" -> IF v.k = "-0.0" THEN [fin |-> TRUE, neg |-> FALSE, d |-> "0", q |-> 0, r |-> "", k |-> ""]
                      ELSE [fin |-> FALSE, neg |-> v.k = "-inf", d |-> "", q |-> 0, r |-> "", k |-> v.k]
(* -1 / 0 / 1, or 2 when unordered *)
NumCmp(a, b) ==
  LET x == Num(a) y == Num(b) IN
  IF x.k = "nan" \/ y.k = "nan" THEN 2
  ELSE IF ~x.fin /\ ~y.fin THEN (IF x.k = y.k THEN 0 ELSE IF x.neg THEN -1 ELSE 1)
  ELSE IF ~x.fin THEN (IF x.neg THEN -1 ELSE 1)
  ELSE IF ~y.fin THEN (IF y.neg THEN 1 ELSE -1)
  ELSE LET zx == x.d = "0" /\ x.q = 0 /\ x.r = "" zy == y.d = "0" /\ y.q = 0 /\ y.r = ""
           nx == x.neg /\ ~zx  ny == y.neg /\ ~zy IN
  IF nx # ny THEN (IF nx THEN -1 ELSE 1)
  ELSE LET dc == DCmp(x.d, y.d)
           m == IF dc # 0 THEN dc
                ELSE IF x.q # y.q THEN (IF x.q < y.q THEN -1 ELSE 1)
                ELSE IF x.r = y.r THEN 0
                ELSE IF x.r = "" THEN -1 ELSE IF y.r = "" THEN 1 ELSE 2
       IN IF m = 2 THEN 2 ELSE IF nx THEN 0 - m ELSE m
NumIsWhole(v) == LET x == Num(v) IN x.fin /\ x.q = 0 /\ x.r = ""
NumIsFinite(v) == Num(v).fin
MkFloatQ(q) == [t |-> "float", q |-> q]
(* float with whole value of given sign and digits *)
MkFloatWhole(neg, digs) ==
  LET d == StripZ(digs) IN
  IF d = "0" /\ neg THEN [t |-> "fsp", k |-> "-0.0"]
  ELSE IF Len(d) <= 8 THEN MkFloatQ((IF neg THEN -4 ELSE 4) * DigInt(d))
  ELSE IF Len(d) <= 15 THEN [t |-> "fbig", neg |-> neg, d |-> d]
  ELSE LET m == {p \in Range(Data.doubles) : p[1] = d} IN
       IF m = {} THEN [t |-> "wfloat"] ELSE [t |-> "fbig", neg |-> neg, d |-> (CHOOSE p \in m : TRUE)[2]]

(* decimal literal: sign, digits, fraction, exponent  ->  components *)
(* result: ok, neg, id (integer digits), fd (fraction digits, no trailing 0) , huge *)
DecShift(id, fd, e) ==
  IF e >= 0 THEN
    LET f == fd \o Rep("0", e - Len(fd)) IN
    [id |-> StripZ("0" \o id \o UpTo(f, e)), fd |-> StripZR(From(f, e + 1))]
  ELSE LET i == Rep("0", (0 - e) - Len(id)) \o id IN
    [id |-> StripZ("0" \o UpTo(i, Len(i) + e)), fd |-> StripZR(From(i, Len(i) + e + 1) \o fd)]
BadDec == [ok |-> FALSE, neg |-> FALSE, id |-> "", fd |-> "", k |-> ""]
(* Rust's f64 grammar (also Decimal's, for the subset generated) *)
ParseDec(s0) ==
  LET neg == StartsCh(s0, "-")
      s == IF neg \/ StartsCh(s0, "+") THEN From(s0, 2) ELSE s0
      low == Lower(s)
  IN
  IF low \in {"inf", "infinity"} THEN [ok |-> TRUE, neg |-> neg, id |-> "", fd |-> "", k |-> "inf"]
  ELSE IF low = "nan" THEN [ok |-> TRUE, neg |-> neg, id |-> "", fd |-> "", k |-> "nan"]
  ELSE LET ei == FindCh(low, "e")
           mant == IF ei = 0 THEN s ELSE UpTo(s, ei - 1)
           ex0 == IF ei = 0 THEN "0" ELSE From(s, ei + 1)
           exn == StartsCh(ex0, "-")
           ex == IF exn \/ StartsCh(ex0, "+") THEN From(ex0, 2) ELSE ex0
           dot == FindCh(mant, ".")
           ip == IF dot = 0 THEN mant ELSE UpTo(mant, dot - 1)
           fp == IF dot = 0 THEN "" ELSE From(mant, dot + 1)
       IN IF Len(ex) = 0 \/ ~AllIn(ex, Digits) \/ ~AllIn(ip, Digits) \/ ~AllIn(fp, Digits)
             \/ Len(ip) + Len(fp) = 0 THEN BadDec
          ELSE IF AllIn(ip \o fp, {"0"}) THEN [ok |-> TRUE, neg |-> neg, id |-> "0", fd |-> "", k |-> ""]
          ELSE IF Len(StripZ(ex)) > 3 \/ (Len(StripZ(ex)) = 3 /\ DigInt(ex) > 320)
               THEN [ok |-> TRUE, neg |-> neg, id |-> "0", fd |-> "", k |-> IF exn THEN "" ELSE "inf"]
          ELSE LET r == DecShift(ip, fp, IF exn THEN 0 - DigInt(ex) ELSE DigInt(ex)) IN
               [ok |-> TRUE, neg |-> neg, id |-> r.id, fd |-> r.fd, k |-> IF Len(r.id) > 309 THEN "inf" ELSE ""]
MkFloatDec(p) ==
  IF p.k = "inf" THEN [t |-> "fsp", k |-> IF p.neg THEN "-inf" ELSE "inf"]
  ELSE IF p.k = "nan" THEN [t |-> "fsp", k |-> "nan"]
  ELSE IF p.fd = "" THEN MkFloatWhole(p.neg, p.id)
  ELSE IF p.fd \in {"25", "5", "75"} /\ Len(p.id) <= 8
       THEN LET q == 4 * DigInt(p.id) + (IF p.fd = "25" THEN 1 ELSE IF p.fd = "5" THEN 2 ELSE 3)
            IN MkFloatQ(IF p.neg THEN 0 - q ELSE q)
  ELSE IF Len(p.id) + Len(p.fd) <= 15 /\ ~(p.id = "0" /\ HasPrefix(p.fd, "0000"))
       THEN LET f2 == DigInt(UpTo(p.fd \o "00", 2)) IN
            [t |-> "fopq", neg |-> p.neg, d |-> p.id, q |-> f2 \div 25,
             r |-> (IF p.neg THEN "-" ELSE "") \o p.id \o "." \o p.fd]
  ELSE [t |-> "wfloat"]
IntToFloat(v) ==
  LET neg == IF v.t = "bool" THEN FALSE ELSE IntNeg(v)
      d == IF v.t = "bool" THEN (IF v.b THEN "1" ELSE "0") ELSE IntDig(v)
  IN IF d = "0" THEN MkFloatQ(0) ELSE MkFloatWhole(neg, d)

(****************************** enum members ********************************)
(* Data.enums : seq of [c, base, mem: seq of [n, v]] *)
EnumRec(c) == CHOOSE e \in Range(Data.enums) : e.c = c
EnumVal(v) == (CHOOSE m \in Range(EnumRec(v.c).mem) : m.n = v.n).v
EnumBase(v) == EnumRec(v.c).base
(* the scalar an str/int/float-based enum member behaves as *)
Plain(v) == IF v.t = "enum" /\ EnumBase(v) # "none" THEN EnumVal(v) ELSE v
DecNum(v) == LET p == ParseDec(v.s) IN IF p.k = "" /\ p.fd = "" THEN MkInt(p.neg, p.id) ELSE MkFloatDec(p)
Comparand(v) == IF v.t = "dec" THEN DecNum(v) ELSE Plain(v)

(*************************** equality (Python ==) ***************************)
DataClasses == {"DA", "DA1", "DB", "DS", "DP", "DQ", "DCF"}
StrLike(v) == v.t \in {"str", "strsub"}
BytesLike(v) == v.t \in {"bytes", "bytessub"}
Deref(H, v) == IF v.t = "ref" THEN H[v.r] ELSE v
RECURSIVE PyEq(_, _, _)
SeqEq(H, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : PyEq(H, a[i], b[i])
PyEq(H, a0, b0) ==
  LET a == Comparand(Deref(H, a0)) b == Comparand(Deref(H, b0)) IN
  IF a0.t = "ref" /\ b0 = a0 THEN TRUE
  ELSE IF a.t \in NumTags /\ b.t \in NumTags THEN NumCmp(a, b) = 0
  ELSE IF StrLike(a) /\ StrLike(b) THEN a.s = b.s
  ELSE IF a.t \in {"bytes","bytessub","bytearray"} /\ b.t \in {"bytes","bytessub","bytearray"}
       THEN a.y = b.y /\ a.u = b.u
  ELSE IF a.t \in {"set","frozenset"} /\ b.t \in {"set","frozenset"}
       THEN Len(a.l) = Len(b.l) /\ \A i \in DOMAIN a.l : \E j \in DOMAIN b.l : PyEq(H, a.l[i], b.l[j])
  ELSE IF a.t # b.t /\ ~({a.t, b.t} \subseteq {"dict", "map"}) THEN FALSE
  ELSE CASE a.t \in {"list","tuple"} -> SeqEq(H, a.l, b.l)
         [] a.t \in {"dict", "map"} -> Len(a.d) = Len(b.d) /\
              \A i \in DOMAIN a.d : \E j \in DOMAIN b.d :
                 PyEq(H, a.d[i][1], b.d[j][1]) /\ PyEq(H, a.d[i][2], b.d[j][2])
         [] a.t = "inst" -> a.c = b.c /\ a.c \in DataClasses /\ PyEq(H, Dict(a.d), Dict(b.d))
         [] a.t = "obj" -> FALSE
         [] OTHER -> a = b
(* hashability *)
RECURSIVE Hashable(_, _)
Hashable(H, v0) ==
  LET v == Deref(H, v0) IN
  CASE v.t \in {"list","dict","set","bytearray","map","args"} -> FALSE
    [] v.t = "itb" -> v.k \notin {"deque", "keys"}
    [] v.t = "inst" -> v.c \notin DataClasses
    [] v.t = "tuple" -> \A i \in DOMAIN v.l : Hashable(H, v.l[i])
    [] OTHER -> TRUE

(************************** recorded-value matching *************************)
(* Same(H, e, g): the value e the specification expects is the value g that   *)
(* was observed.  References only match the same heap cell, except for       *)
(* immutable tuples and frozensets which are compared by content.            *)
Immut == {"tuple", "frozenset"}
RECURSIVE Same(_, _, _)
SeqSame(H, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(H, a[i], b[i])
PairSame(H, a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(H, a[i][1], b[i][1]) /\ Same(H, a[i][2], b[i][2])
Same(H, e0, g0) ==
  IF e0.t = "ref" /\ g0.t = "ref" /\ e0.r = g0.r THEN TRUE
  ELSE LET e == IF e0.t = "ref" /\ H[e0.r].t \in Immut THEN H[e0.r] ELSE e0
           g == IF g0.t = "ref" /\ H[g0.r].t \in Immut THEN H[g0.r] ELSE g0
  IN IF e.t = "wild" THEN TRUE
     ELSE IF e.t = "wfloat" THEN g.t \in FltTags
     ELSE IF e.t # g.t THEN FALSE
     ELSE CASE e.t = "ref" -> e.r = g.r
            [] e.t \in {"list","tuple"} -> SeqSame(H, e.l, g.l)
            [] e.t \in {"set","frozenset"} ->
                 Len(e.l) = Len(g.l) /\ \A i \in DOMAIN e.l : \E j \in DOMAIN g.l : Same(H, e.l[i], g.l[j])
            [] e.t \in {"dict","map"} -> PairSame(H, e.d, g.d)
            [] e.t = "inst" -> e.c = g.c /\ PairSame(H, e.d, g.d) /\ e.hf = g.hf /\ e.hx = g.hx
                               /\ Range(e.fs) = Range(g.fs) /\ PairSame(H, e.x, g.x)
            [] e.t = "vgen" -> e.idx = g.idx
            [] e.t = "src" -> e.at = g.at
            [] OTHER -> e = g
=============================================================================
