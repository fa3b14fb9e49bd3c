----------------------------- MODULE TimeResGen -----------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done
Start == {<<"new", m, c>> : m \in {"none", "hypre", "block", "mixed"}, c \in {"lin", "cubic"}}
Ops == {<<"set", k>> : k \in {"state", "state_dot", "dt0", "dt", "time", "p", "all", "unrelated"}}
       \cup {<<"vec", k>> : k \in {"state", "state_dot"}} \cup {<<"eval", v>> : v \in {"evaluate", "Mult"}}
       \cup {<<"jac", v>> : v \in {"getJacobian", "GetGradient"}} \cup {<<"fwd", "">>}
Init == \E s \in Start : h = <<s>> /\ done = FALSE
Next == ~done /\ \/ Len(h) < D + 1 /\ (\E o \in Ops : h' = Append(h, o)) /\ UNCHANGED done
                 \/ Len(h) = D + 1 /\ done' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
