------------------------------ MODULE NewtonGen -----------------------------
(* Adversaries of a globalised Newton solve: what each new residual is, and *)
(* the limits of the solve.                                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, MaxIts, LsIts, Tails, D
VARIABLES m, s, done
Init == /\ m \in [kind : {"relaxed", "inexact"}, maxit : MaxIts, lsmaxit : LsIts, tail : Tails]
        /\ s = <<>> /\ done = FALSE
Next == ~done /\ \/ /\ Len(s) < D /\ \E k \in Kinds : s' = Append(s, k)
                    /\ UNCHANGED <<m, done>>
                 \/ /\ Len(s) = D /\ done' = TRUE /\ UNCHANGED <<m, s>>
Spec == Init /\ [][Next]_<<m, s, done>>
Emit == done => PrintT("SCN" \o ToJson([m EXCEPT !.kind = @] @@ [script |-> s]))
=============================================================================
