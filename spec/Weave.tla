-------------------------------- MODULE Weave --------------------------------
(* Two calls on two threads.  A thread runs from one callback to the next; at  *)
(* every callback any thread that has not finished may go on.  The callbacks   *)
(* of each call are the ones the specification gives it alone, so the          *)
(* schedules are the interleavings of two segment counts; all are printed.     *)
EXTENDS PSpec
CONSTANT MaxSegs
Menus == ndJsonDeserialize("menus.ndjson")
VARIABLES n, left, sched
vars == <<n, left, sched>>
Segs(m, op) == 1 + Len(Step(m, op, m.heap).out.log)
Init == /\ n \in DOMAIN Menus /\ sched = <<>>
        /\ left = [i \in {1, 2} |-> Segs(Menus[n], Menus[n].menu[i])]
Next == /\ left[1] + left[2] + Len(sched) <= MaxSegs
        /\ \E i \in {1, 2} :
             /\ left[i] > 0
             /\ left' = [left EXCEPT ![i] = @ - 1]
             /\ sched' = Append(sched, i)
             /\ n' = n
             /\ (IF left'[1] = 0 /\ left'[2] = 0 THEN PrintT(<<"HIST", n, sched'>>) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
