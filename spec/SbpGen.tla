------------------------------- MODULE SbpGen ------------------------------
\* Histories of one element: which element (family, degree, collection) and
\* which operators are applied to the shared buffer or queried; and meshes:
\* how the vertices of two neighbouring elements are ordered.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Ops, Meshes
VARIABLES h, done
vv == <<h, done>>
Kinds == {<<"seg", p>> : p \in 0..4} \cup {<<"tri", p>> : p \in 0..4} \cup {<<"tet", p>> : p \in 0..1}
Elems == {<<"elem", k[1], ToString(k[2]), c>> : k \in Kinds, c \in {"sbp", "dsbp"}}
Valid(e) == e[2] = "tet" => e[4] = "sbp"
Init == /\ done = FALSE
        /\ \/ \E e \in Elems : Valid(e) /\ h = <<e>>
           \/ Meshes /\ \E d \in 1..3, p \in 0..4, c \in {"sbp", "dsbp"}, a, b \in 0..23 :
                /\ d = 1 => c = "sbp" /\ a < 2 /\ b < 2
                /\ d = 2 => a < 6 /\ b < 6
                /\ d = 3 => c = "sbp" /\ p < 2
                /\ h = <<<<"mesh", ToString(d), ToString(p), c, ToString(a), ToString(b)>>>>
Next == /\ ~done
        /\ IF h[1][1] = "mesh" \/ Len(h) = D + 1 THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \E o \in Ops : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
