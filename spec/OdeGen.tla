------------------------------- MODULE OdeGen -------------------------------
(* Histories of steps of one integrator: how its solver answers, the size  *)
(* and direction of each step, the entropy.                                *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Names, Modes, Entropies, Sizes, D
VARIABLES h, done
Init == \E n \in Names, m \in Modes, e \in Entropies : h = [type |-> n, mode |-> m, entropy |-> e, steps |-> <<>>] /\ done = FALSE
Next == ~done /\ \/ Len(h.steps) < D /\ (\E s \in Sizes : h' = [h EXCEPT !.steps = Append(@, s)]) /\ UNCHANGED done
                 \/ Len(h.steps) > 0 /\ done' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
