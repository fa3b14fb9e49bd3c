------------------------------ MODULE KdTreeGen -----------------------------
(* Histories of one tree: how it is made, which point sets are added, when  *)
(* it is (re)finalized and which queries follow.                            *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Dims, Patterns, Queries
VARIABLES h, st, done
vv == <<h, st, done>>
Sizes == {"0", "1", "2", "3", "some", "many"}
Init == /\ \E m \in {"add", "iter", "func"}, d \in Dims, t \in {"double", "int"} :
             \/ m = "add" /\ h = <<<<m, ToString(d), t, "-", "0">>>> /\ st = "no"
             \/ m # "add" /\ \E p \in Patterns, n \in Sizes : h = <<<<m, ToString(d), t, p, n>>>> /\ st = "yes"
        /\ done = FALSE
Op(o) == h' = Append(h, o)
Next ==
  /\ ~done
  /\ IF Len(h) = D + 1 THEN done' = TRUE /\ UNCHANGED <<h, st>>
     ELSE /\ UNCHANGED done
          /\ \/ \E p \in Patterns, n \in Sizes : Op(<<"add", p, n>>) /\ st' = IF n = "0" THEN st ELSE IF st = "no" THEN "full" ELSE "stale"
             \/ Op(<<"finalize">>) /\ st' = "yes"
             \/ st \in {"no", "yes"} /\ (\E q \in Queries : Op(<<"query", q>>)) /\ UNCHANGED st
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
