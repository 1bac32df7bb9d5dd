-------------------------------- MODULE PSpec --------------------------------
(* The operations of the public interface as transitions over the heap.       *)
EXTENDS PSer

RECURSIVE Write(_, _)
Write(H, hp) == IF Len(hp) = 0 THEN H ELSE Write([H EXCEPT ![hp[1].r] = hp[1].v], Tail(hp))
(************************ the properties on the specification ****************)
(* What the property statements say about V itself, evaluated at every state   *)
(* the histories reach: op.prop names the formula.                             *)
RECURSIVE Reach(_, _, _), RefsIn(_)
RefsIn(v) == CASE v.t = "ref" -> {v.r}
               [] v.t \in {"list", "tuple", "set", "frozenset"} -> UNION {RefsIn(v.l[i]) : i \in DOMAIN v.l}
               [] v.t \in {"dict", "map", "inst"} -> UNION {RefsIn(v.d[i][2]) : i \in DOMAIN v.d}
               [] OTHER -> {}
Reach(H, W, n) == IF n = 0 THEN W ELSE LET T == W \cup UNION {RefsIn(H[r]) : r \in W} IN IF T = W THEN W ELSE Reach(H, T, n - 1)
Cyclic(H, x) == \E r \in Reach(H, RefsIn(x), Len(H)) : r \in Reach(H, RefsIn(H[r]), Len(H))
OkSame(H, a, b) == a.k = b.k /\ (a.k = "ok" => Same(H, a.v, b.v)) /\ (a.k = "exc" => a.exc = b.exc)
(* P03: what strict accepts, lax accepts with an equal result *)
PropStrictLax(s, x, c) ==
  LET rs == V(s, x, [c EXCEPT !.strict = "true"]) rl == V(s, x, [c EXCEPT !.strict = "false"]) IN
  rs.k = "ok" => rl.k = "ok" /\ Same(c.H, rs.v, rl.v)
(* P06/P07: a union accepts what some choice accepts alone, with that choice's result *)
PropUnion(s, x, c) ==
  LET r == V(s, x, c)
      \* a choice may be right by itself or under strictness: the smart mode tries both
      alone(i) == V(s.choices[i].schema, x, c)
  IN (r.k \in {"ok", "errs"}) =>
     /\ (r.k = "ok") <=> (\E i \in DOMAIN s.choices : alone(i).k = "ok")
     /\ r.k = "ok" => \E i \in DOMAIN s.choices : alone(i).k = "ok" /\ Same(c.H, r.v, alone(i).v)
     /\ (r.k = "ok" /\ Opt(s, "mode", "smart") = "left_to_right") =>
          Same(c.H, r.v, alone(CHOOSE i \in DOMAIN s.choices : alone(i).k = "ok" /\ \A j \in 1..(i-1) : alone(j).k # "ok").v)
     /\ r.k = "errs" => Len(r.errs) = FoldN(LAMBDA a, i : a + Len(alone(i).errs), 0, Len(s.choices))
(* P13: recursion errors are reported for cycles only *)
PropCycle(H, r, x) == (r.k = "errs" /\ \E i \in DOMAIN r.errs : r.errs[i].ty = "recursion_loop") => Cyclic(H, x)
(* P28: where nothing else can fail, serialization fails on cycles only, and JSON output always does *)
PropSerCycle(H, r, op) == r.k = "exc" => Cyclic(H, op.x)
(* P25: a schema and its rewriting *)
PropSame(s, s2, x, c, c2) ==
  LET a == V(s, x, c) b == V(s2, x, c2) IN
  OkSame(c.H, a, b) /\ (a.k = "errs" => Len(a.errs) = Len(b.errs) /\ \A i \in DOMAIN a.errs : a.errs[i].ty = b.errs[i].ty)
(* P23: validate, serialize, validate again, serialize again; validate the validated value *)
RECURSIVE NoFs(_, _, _)
NoFs(H, v0, fs) == LET v == Deref(H, v0) IN
  CASE v.t \in {"list", "tuple", "set", "frozenset"} -> [v EXCEPT !.l = [i \in DOMAIN @ |-> NoFs(H, @[i], fs)]]
    [] v.t = "dict" -> [v EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], NoFs(H, @[i][2], fs)>>]]
    [] v.t = "inst" -> [v EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], NoFs(H, @[i][2], fs)>>], !.fs = IF fs THEN @ ELSE <<>>]
    [] OTHER -> v
ThereAndBack(case, op, s, c) ==
  LET sop == op.ser
      x2 == SCtx(case, sop, c.H)
      js == sop.op = "to_json"
      ser(v) == S(s, v, SFilters(sop), x2, St0)
      c2 == [c EXCEPT !.mode = IF js THEN "json" ELSE "python", !.it = IF js THEN "json" ELSE "python"]
      cp == [c EXCEPT !.mode = "python", !.it = "python"]
      r1 == V(s, op.x, c)
      t1 == ser(r1.v) r2 == V(s, t1.v, c2) t2 == ser(r2.v) ri == V(s, r1.v, cp)
      mark(r) == IF r.k = "ok" THEN r.v ELSE Str("<" \o (IF r.k = "errs" THEN "errs" ELSE "exc") \o ">")
      tv(t) == IF B(op, "noto") THEN None ELSE mark(t)
      out == IF t1.k # "ok" THEN <<r1.v, Str("<exc>"), mark(ri)>>
             ELSE IF r2.k # "ok" THEN <<r1.v, tv(t1), mark(r2), mark(ri)>>
             ELSE <<r1.v, tv(t1), mark(r2), tv(t2), mark(ri)>>
      log == r1.log \o t1.st.log \o (IF t1.k # "ok" THEN <<>> ELSE r2.log \o (IF r2.k # "ok" THEN <<>> ELSE t2.st.log)) \o ri.log
      eq(a, b, fs) == Same(c.H, NoFs(c.H, a, fs), NoFs(c.H, b, fs))
  IN IF r1.k # "ok" THEN [r |-> r1, good |-> TRUE, idem |-> TRUE]
     ELSE [r |-> [r1 EXCEPT !.v = Tuple(out), !.log = log],
           good |-> t1.k = "ok" /\ r2.k = "ok" /\ eq(r1.v, r2.v, B(sop, "eu")) /\ t2.k = "ok" /\ (B(op, "noto") \/ eq(t1.v, t2.v, TRUE)),
           idem |-> ri.k = "ok" /\ eq(ri.v, r1.v, TRUE)]
Props(case, op, r, s, c) ==
  CASE ~Has(op, "prop") -> <<>>
    [] op.prop = "strictlax" -> [strictlax |-> PropStrictLax(s, op.x, c)]
    [] op.prop = "union" -> [union |-> PropUnion(s, op.x, c)]
    [] op.prop = "cycle" -> [cycle |-> PropCycle(c.H, r, op.x)]
    [] op.prop = "same" -> [same |-> PropSame(s, case.schemas[1].v, op.x, c, [c EXCEPT !.cfg = case.cfg[1]])]
(* (for results too deep to be written down) *)
RECURSIVE DepthOf(_, _)
DepthOf(H, v0) == LET v == Deref(H, v0) IN
  IF v.t # "list" \/ Len(v.l) = 0 THEN 1 ELSE 1 + DepthOf(H, v.l[1])
Measured(r, H) == IF r.k = "ok" THEN [r EXCEPT !.v = IntV(DepthOf(H, r.v))] ELSE r
(* iterators in a result become objects of their own, in the order they are found *)
RECURSIVE Alloc(_, _), AllocSeq(_, _), AllocPairs(_, _)
Alloc(v, H) ==
  IF v.t = "vgen" THEN [v |-> [t |-> "ref", r |-> Len(H) + 1], H |-> Append(H, v)]
  ELSE IF ~HasGen(v) THEN [v |-> v, H |-> H]
  ELSE IF v.t \in {"list", "tuple", "set", "frozenset"} THEN LET a == AllocSeq(v.l, H) IN [v |-> [v EXCEPT !.l = a.v], H |-> a.H]
  ELSE LET a == AllocPairs(v.d, H) IN
       IF v.t = "inst" THEN LET b == AllocPairs(v.x, a.H) IN [v |-> [v EXCEPT !.d = a.v, !.x = b.v], H |-> b.H]
       ELSE [v |-> [v EXCEPT !.d = a.v], H |-> a.H]
AllocSeq(l, H) ==
  IF Len(l) = 0 THEN [v |-> <<>>, H |-> H]
  ELSE LET a == Alloc(l[1], H) b == AllocSeq(Tail(l), a.H) IN [v |-> <<a.v>> \o b.v, H |-> b.H]
AllocPairs(d, H) ==
  IF Len(d) = 0 THEN [v |-> <<>>, H |-> H]
  ELSE LET a == Alloc(d[1][2], H) b == AllocPairs(Tail(d), a.H) IN [v |-> << <<d[1][1], a.v>> >> \o b.v, H |-> b.H]
RECURSIVE WriteA(_, _)
WriteA(H, hp) == IF Len(hp) = 0 THEN H ELSE LET a == Alloc(hp[1].v, H) IN WriteA([a.H EXCEPT ![hp[1].r] = a.v], Tail(hp))
Outcome(r, H) ==
  LET a == Alloc(r.v, H) IN
  [out |-> [r EXCEPT !.v = a.v], H |-> WriteA(a.H, r.hp), props |-> <<>>]
(* the n-th iterator handed out so far *)
Gens(H) == Filter([i \in DOMAIN H |-> i], LAMBDA i : H[i].t = "vgen")
PullOp(op, H) ==
  LET gs == Gens(H) IN
  IF op.g > Len(gs) THEN Outcome(OkV(None, Exact), H)
  ELSE LET p == Pull(H[gs[op.g]], H) IN Outcome(p.r, [p.H EXCEPT ![gs[op.g]] = p.g])
RECURSIVE Step(_, _, _)
(* two calls at the same time: each as if it were alone *)
Both(case, op, H) ==
  LET a == Step(case, op.a, H) b == Step(case, op.b, H) IN
  [out |-> [k |-> "both", a |-> a.out, b |-> b.out, log |-> <<>>], H |-> H, props |-> <<>>]
Step(case, op, H) ==
  IF op.op = "both" THEN Both(case, op, H) ELSE
  LET c == Ctx0(case, op, H) s == case.schemas[op.s].v IN
  CASE op.op = "validate" ->
         LET r0 == IF StrBad(op.x, c) THEN Err0("string_type", op.x) ELSE V(s, op.x, c) 
             r == IF c.dup THEN OnceR(r0) ELSE r0 IN
         [Outcome(IF Has(op, "measure") THEN Measured(r, H) ELSE r, H) EXCEPT !.props = IF StrBad(op.x, c) THEN <<>> ELSE Props(case, op, r, s, c)]
    [] op.op = "roundtrip" ->
         LET r == ThereAndBack(case, op, s, c) IN
         [Outcome(r.r, H) EXCEPT !.props = IF ~Has(op, "prop") THEN <<>> ELSE IF op.prop = "both" THEN [roundtrip |-> r.good, idempotent |-> r.idem] ELSE [roundtrip |-> r.good]]
    [] op.op = "isinstance" ->
         LET r == V(s, op.x, c) IN
         Outcome(CASE r.k = "ok" -> [r EXCEPT !.v = Bool(TRUE)]
                   [] r.k = "errs" -> [r EXCEPT !.k = "ok", !.v = Bool(FALSE)]
                   [] OTHER -> r, H)
    [] op.op = "pull" -> PullOp(op, H)
    [] op.op = "push" -> Outcome(OkV(None, Exact), [H EXCEPT ![op.m.r].l = Append(@, op.x)])
    [] op.op = "assign" -> Outcome(VA(s, op.m, op.field, op.x, c), H)
    [] op.op \in SerOps ->
         LET r == SerOp(case, op, H) IN
         [Outcome(IF Has(op, "measure") THEN Measured(r, H) ELSE r, H) EXCEPT !.props =
            IF ~Has(op, "prop") THEN <<>> ELSE [cycle |-> PropSerCycle(H, r, op)]]
    [] op.op = "default" ->
         LET r == DefaultOf(s, <<>>, c) IN
         Outcome(CASE r.k = "ok" -> [r EXCEPT !.v = Tuple(<<Str("some"), @>>)]
                   [] r.k = "nodefault" -> [r EXCEPT !.k = "ok", !.v = Tuple(<<Str("none")>>)]
                   [] OTHER -> r, H)
BuildMatch(case) == IF Has(case, "bad") THEN case.build = "SchemaError" ELSE case.build = "ok"

LocMatch(e, g) ==
  /\ Len(e) = Len(g)
  /\ \A i \in DOMAIN e : Has(e[i], "w") \/ e[i] = g[i]
ErrMatch(H, e, g) ==
  /\ e.ty = g.ty
  /\ LocMatch(e.loc, g.loc)
  /\ Same(H, e.inp, g.inp)
  /\ Len(e.ctx) = Len(g.ctx) /\ \A i \in DOMAIN e.ctx : e.ctx[i][1] = g.ctx[i][1] /\ Same(H, e.ctx[i][2], g.ctx[i][2])
InfoMatch(H, e, g) ==
  /\ e.n = g.n
  /\ e.n = 1 => /\ g.mode = e.mode
                /\ Opt(g, "field_name", "") = e.fname
                /\ Has(g, "ctx") = e.hctx /\ (e.hctx => Same(H, e.ctx, g.ctx))
                /\ Has(g, "data") = e.hdata /\ (e.hdata => Same(H, e.data, g.data))
  /\ e.n = 2 => /\ g.mode = e.mode /\ g.fname = e.fname
                /\ Same(H, e.inc, g.inc) /\ Same(H, e.exc, g.exc) /\ Same(H, e.ctx, g.ctx)
                /\ <<g.ba, g.eu, g.ed, g.en, g.rt, g.any>> = <<e.ba, e.eu, e.ed, e.en, e.rt, e.any>>
LogMatch(H, e, g) ==
  /\ Len(e) = Len(g)
  /\ \A i \in DOMAIN e : /\ e[i].f = g[i].f
                         /\ Len(e[i].a) = Len(g[i].a)
                         /\ \A j \in DOMAIN e[i].a : Same(H, e[i].a[j], g[i].a[j])
                         /\ InfoMatch(H, e[i].i, g[i].i)
RECURSIVE OutMatch(_, _, _)
OutMatch(H, e, g) ==
  CASE e.k = "ok" -> g.k = "ok" /\ Same(H, e.v, g.v)
    [] e.k = "errs" -> g.k = "errs" /\ Len(e.errs) = Len(g.errs) /\ \A i \in DOMAIN e.errs : ErrMatch(H, e.errs[i], g.errs[i])
    [] e.k \in {"omit", "usedefault"} -> g.k = "exc" /\ g.c = "SchemaError"
    [] e.k = "exc" -> g.k = "exc" /\ g.c = e.exc
    [] e.k = "any" -> g.k # "panic"
    [] e.k = "both" -> g.k = "both" /\ OutMatch(H, e.a, g.a) /\ OutMatch(H, e.b, g.b) /\ LogMatch(H, e.a.log, g.a.log) /\ LogMatch(H, e.b.log, g.b.log)
(* every view of an error describes the same list of errors *)
ViewsMatch(case, e, g) ==
  Has(g, "views") => /\ g.views.count = Len(e.errs) /\ g.views.n = Len(e.errs)
                     /\ g.views.urls /\ g.views.opts /\ g.views.json /\ g.views.head /\ g.views.text /\ g.views.repr /\ g.views.pickle
(* (a reference goes by the name of its definition, shortened where it recurs: not modelled) *)
StrCfg == {"str_min_length", "str_max_length", "str_strip_whitespace", "str_to_lower", "str_to_upper"}  \* (make every str a constrained one)
TitleMatch(case, op, e, g) ==
  IF op.op = "pull" THEN e.k = "errs" /\ g.k = "errs" => g.title = "ValidatorIterator" ELSE (~(StrCfg \cap DOMAIN case.cfg[op.s] # {} /\ ~Has(case.cfg[op.s], "title")) /\ case.schemas[op.s].v.type # "definitions" /\ e.k = "errs" /\ g.k = "errs") => g.title = Opt(case.cfg[op.s], "title", Nm(case.schemas[op.s].v))
WarnMatch(e, g) == e.m = "*" \/ (e.m = g.m /\ e.ft = g.ft /\ (e.it = g.it \/ e.it \in {"*", "?"}))
EmMatch(e, g) ==
  /\ Len(e) = Len(g)
  /\ \A i \in DOMAIN e : Len(e[i]) = Len(g[i]) /\ \A j \in DOMAIN e[i] : WarnMatch(e[i][j], g[i][j])
(* JSON text: the layout, and where the model knows the text of every value, the text itself *)
TextMatch(e, g) == /\ Has(g, "lay") => g.lay
                   /\ (Has(g, "text") /\ e.k = "ok" /\ JPlain(e.v)) => g.text = JText(e.v)
=============================================================================
