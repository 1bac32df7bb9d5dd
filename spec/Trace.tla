-------------------------------- MODULE Trace --------------------------------
(* Conformance: every recorded call on the implementation is a step of the    *)
(* specification.  The state is the position in the recorded history and the  *)
(* heap the specification predicts; each recorded operation must produce the  *)
(* outcome, the user-function log and the heap that PSpec!Step gives.         *)
EXTENDS PSpec
CONSTANT Verbose
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES n, k, H, dead
vars == <<n, k, H, dead>>
Report(what, id, op, exp, got) ==
  IF Verbose THEN PrintT(<<"MISMATCH", id, op, what, exp, got>>) ELSE PrintT(<<"MISMATCH", id, op, what>>)
CheckStep(case, j, h) ==
  LET op == case.ops[j] out == case.outs[j] r == Step(case, op, h)
      h2 == [i \in DOMAIN r.H |-> r.H[i]]
      obs(i) == IF \E m \in Range(out.mut) : m.r = i THEN (CHOOSE m \in Range(out.mut) : m.r = i).v ELSE h[i]
  IN [H |-> r.H,
      ok |-> /\ (IF OutMatch(h, r.out, out) THEN TRUE ELSE Report("out", case.id, j, r.out, out) /\ FALSE)
             /\ (IF r.out.k # "errs" \/ (TitleMatch(case, op, r.out, out) /\ ViewsMatch(case, r.out, out)) THEN TRUE
                 ELSE Report("views", case.id, j, Nm(case.schemas[op.s].v), out) /\ FALSE)
             /\ (IF LogMatch(h, r.out.log, out.log) THEN TRUE ELSE Report("log", case.id, j, r.out.log, out.log) /\ FALSE)
             /\ (IF op.op \notin SerOps \/ TextMatch(r.out, out) THEN TRUE ELSE Report("text", case.id, j, r.out.v, out) /\ FALSE)
             /\ (IF op.op \notin SerOps \/ EmMatch(r.out.em, out.em) THEN TRUE ELSE Report("warnings", case.id, j, r.out.em, out.em) /\ FALSE)
             /\ (IF \A i \in DOMAIN h : Same(h, r.H[i], obs(i)) THEN TRUE ELSE Report("heap", case.id, j, r.H, out.mut) /\ FALSE)
             /\ \A p \in DOMAIN r.props : (IF r.props[p] THEN TRUE ELSE Report("prop:" \o p, case.id, j, r.out, out) /\ FALSE)]
Init == n = 1 /\ k = 0 /\ dead = FALSE /\ H = (IF Len(Cases) > 0 THEN Cases[1].heap ELSE <<>>)
NextCase == /\ n' = n + 1
            /\ k' = 0
            /\ dead' = FALSE
            /\ H' = IF n + 1 <= Len(Cases) THEN Cases[n+1].heap ELSE <<>>
Next ==
  /\ n <= Len(Cases)
  /\ LET case == Cases[n] IN
     IF k = 0 /\ ~BuildMatch(case)
     THEN Report("build", case.id, 0, "", case.build) /\ NextCase
     ELSE IF k = 0 /\ Has(case, "schmut") THEN Report("schema changed", case.id, 0, "", case.schmut) /\ NextCase
     ELSE IF k >= Len(case.outs) \/ dead THEN NextCase
     ELSE LET r == CheckStep(case, k + 1, H) IN
          /\ n' = n /\ k' = k + 1
          /\ dead' = ~r.ok
          /\ H' = r.H
Spec == Init /\ [][Next]_vars
=============================================================================
