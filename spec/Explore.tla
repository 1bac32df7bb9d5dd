------------------------------- MODULE Explore -------------------------------
(* Histories: TLC lets a caller choose, at every point, any call of a menu,    *)
(* and follows the specification.  Every history up to the menu's depth is     *)
(* reached (or, for a "graph" menu, every state and every call from it, by a   *)
(* shortest history); each is printed, so that it can be carried out on the    *)
(* implementation, and what the properties say about single steps of a history *)
(* is evaluated on each transition.                                            *)
EXTENDS PSpec
Menus == ndJsonDeserialize("menus.ndjson")
VARIABLES n, H, hist
vars == <<n, H, hist>>
Menu == Menus[n]
Init == n \in DOMAIN Menus /\ H = Menus[n].heap /\ hist = <<>>

(* P12: a failed assignment changes nothing; one that succeeds changes the field and the record of set fields *)
Atomic(op, r) ==
  LET hn == r.H IN
  IF r.out.k # "ok" THEN hn = H
  ELSE op.m.t = "ref" =>
       /\ \A i \in DOMAIN H : i # op.m.r => hn[i] = H[i]
       /\ LET a == H[op.m.r] b == hn[op.m.r] IN
          /\ a.c = b.c
          /\ a.hf => Range(a.fs) \subseteq Range(b.fs) /\ Range(b.fs) \subseteq Range(a.fs) \cup {op.field}
          /\ \A i \in DOMAIN a.d : a.d[i][1].s # op.field => FindKey(H, b.d, a.d[i][1]) > 0 /\ GetIn(H, b.d, a.d[i][1]) = Found(a.d[i][2])
          /\ \A i \in DOMAIN b.d : b.d[i][1].s # op.field => FindKey(H, a.d, b.d[i][1]) > 0
(* P18: opening consumes nothing, a pull moves one iterator on by at most one and asks its source at most once *)

Lazy(op, r) ==
  LET hn == r.H
      moved == {i \in DOMAIN H : hn[i] # H[i]} IN
  IF op.op = "validate" THEN moved = {}
  ELSE IF op.op = "pull" THEN
       /\ Cardinality({i \in moved : H[i].t = "vgen"}) <= 1 /\ Cardinality({i \in moved : H[i].t = "src"}) <= 1
       /\ \A i \in moved : H[i].t \in {"vgen", "src"}
       /\ \A i \in moved : H[i].t = "src" => hn[i] = [H[i] EXCEPT !.at = @ + 1]
       /\ \A i \in moved : H[i].t = "vgen" => hn[i].idx - H[i].idx \in {0, 1} /\ hn[i].s = H[i].s /\ hn[i].c = H[i].c
       /\ (r.out.k = "ok" /\ r.out.v.t = "tuple") =>
            (r.out.v.l[1].s = "item" <=> \E i \in moved : H[i].t = "vgen" /\ hn[i].idx = H[i].idx + 1)
  ELSE TRUE
(* P19, P27: validation and serialization change nothing that was there before (a pull or assignment may) *)
Frame(op, r) == op.op \in ({"validate", "isinstance", "default", "roundtrip"} \cup SerOps) => \A i \in DOMAIN H : r.H[i] = H[i]
Good(op, r) ==
  /\ op.op = "assign" /\ Opt(Menu, "atomic", FALSE) => Atomic(op, r)
  /\ Opt(Menu, "lazy", FALSE) => Lazy(op, r)
  /\ Frame(op, r)
  /\ \A p \in DOMAIN r.props : r.props[p]
Call1(i) ==
  LET op == Menu.menu[i] r == Step(Menu, op, H) IN
  /\ H' = r.H /\ hist' = Append(hist, i) /\ n' = n
  /\ (IF Good(op, r) THEN TRUE ELSE PrintT(<<"UNSOUND", n, hist'>>))
  /\ (IF Len(hist') = Menu.depth \/ Opt(Menu, "graph", FALSE) THEN PrintT(<<"HIST", n, hist'>>) ELSE TRUE)
Next == Len(hist) < Menu.depth /\ \E i \in DOMAIN Menu.menu : Call1(i)
Spec == Init /\ [][Next]_vars
View == <<n, H, IF Opt(Menu, "graph", FALSE) THEN <<>> ELSE hist>>
=============================================================================
