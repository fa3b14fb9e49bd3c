---------------------------- MODULE EMOutputsGen ----------------------------
\* Histories: an output, inputs given in every grouping, values, derivatives.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Outs == {"dc", "ac", "core", "dcdist", "acdist", "coredist", "heat", "force", "torque"}
Which == {"one", "some", "all"}
Sets == {<<"set", w, m>> : w \in Which, m \in {"plain", "extra", "split"}}
Values == {<<"value", w>> : w \in Which}
Modes(k) == IF k \in {"force", "torque"} THEN {"jvp", "vjp", "partial"} ELSE {"jvp", "vjp"}
Derivs(k) == {<<"deriv", m, w>> : m \in Modes(k), w \in IF k \in {"force", "torque"} THEN {"state", "mesh"} ELSE {"state", "mesh", "field", "number"}}
Ops(k) == Sets \cup Values \cup Derivs(k)
Init == done = FALSE /\ h \in {<< <<"out", k>> >> : k \in Outs}
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
        ELSE UNCHANGED done /\ \E o \in Ops(h[1][2]) : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
