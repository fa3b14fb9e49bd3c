---------------------------- MODULE DiagMassGen ----------------------------
\* Histories: an integrator is made, meshes of one kind are assembled element
\* by element into one matrix, other integrators and meshes follow.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, NS, Geo
VARIABLES h, done
vv == <<h, done>>
Kinds == {<<"seg", p>> : p \in 0..4} \cup {<<"tri", p>> : p \in 0..4} \cup {<<"tet", p>> : p \in 0..1}
Meshes == {<<"mesh", k[1], ToString(k[2]), g, c>> : k \in Kinds, g \in Geo, c \in {"sbp", "dsbp"}}
Makes == {<<"make", ToString(s), v>> : s \in NS, v \in {"const", "vary"}}
Init == h \in {<<m>> : m \in Makes} /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D /\ h[Len(h)][1] = "mesh" THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \/ \E m \in Meshes : h' = Append(h, m)
                                  \/ h[Len(h)][1] = "mesh" /\ \E m \in Makes : h' = Append(h, m)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
