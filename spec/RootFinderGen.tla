---------------------------- MODULE RootFinderGen ---------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MaxIts, D
VARIABLES m, s, done
Init == /\ m \in [kind : {"bisection", "secant"}, maxit : MaxIts] /\ s = <<>> /\ done = FALSE
Next == ~done /\ \/ /\ Len(s) < D /\ \E k \in Kinds : s' = Append(s, k)
                    /\ UNCHANGED <<m, done>>
                 \/ /\ Len(s) = D /\ done' = TRUE /\ UNCHANGED <<m, s>>
Spec == Init /\ [][Next]_<<m, s, done>>
Emit == done => PrintT("SCN" \o ToJson([kind |-> m.kind, maxit |-> m.maxit, script |-> s]))
=============================================================================
