------------------------------ MODULE MarchGen -----------------------------
(* Histories of solves of one solver object: every combination of the      *)
(* problem's discrete choices, 1..D solves per history.                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Types, MaxIts, Ratios
VARIABLES h, done
Bool == {TRUE, FALSE}
LogOpt == [on : Bool, init : Bool, each : Bool, final : Bool]
Init == h = <<>> /\ done = FALSE
One == /\ Len(h) < D
       /\ \E ty \in Types, m \in MaxIts, r \in Ratios, e \in {"yes", "no", "unset"}, os, oe \in Bool :
            h' = Append(h, [type |-> ty, maxit |-> m, ratio |-> r, exact |-> e, ownStep |-> os, ownExit |-> oe])
       /\ UNCHANGED done
Fin == Len(h) > 0 /\ ~done /\ done' = TRUE /\ UNCHANGED h
Next == ~done /\ (One \/ Fin)
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN" \o ToJson([solves |-> h,
          logs |-> [k \in {"A", "B"} |-> RandomElement(LogOpt)]]))
=============================================================================
