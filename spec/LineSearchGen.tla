---------------------------- MODULE LineSearchGen ---------------------------
(* Adversaries: every script of merit-value classes the search can meet.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MaxIts, D
VARIABLES m, s, done
Init == m \in MaxIts /\ s = <<>> /\ done = FALSE
Next == ~done /\ \/ /\ Len(s) < D /\ Len(s) <= m /\ \E k \in Kinds : s' = Append(s, k)
                    /\ UNCHANGED <<m, done>>
                 \/ /\ Len(s) = m + 1 \/ Len(s) = D
                    /\ done' = TRUE /\ UNCHANGED <<m, s>>
                 \/ /\ Len(s) < D /\ Len(s) <= m /\ done' = TRUE /\ s' = Append(s, "good") /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, s, done>>
Emit == done => PrintT("SCN" \o ToJson([maxit |-> m, script |-> s]))
=============================================================================
