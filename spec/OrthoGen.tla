------------------------------ MODULE OrthoGen -----------------------------
\* Histories of evaluations that reuse their result vectors and matrices.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, DTri, DTet, NLob
VARIABLES h, done
vv == <<h, done>>
Ops == {<<"jacobi", d, a, b>> : d \in 0..10, a \in 0..3, b \in 0..3}
       \cup {<<"jacobi", d, a, 0>> : d \in 0..5, a \in 4..7}
       \cup {<<"tri", i, j, 0>> : i \in 0..DTri, j \in 0..DTri}
       \cup {<<"tet", i, j, k>> : i \in 0..DTet, j \in 0..DTet, k \in 0..DTet}
       \cup {<<"vseg", d, 0, 0>> : d \in 0..10}
       \cup {<<"vtri", d, 0, 0>> : d \in 0..DTri}
       \cup {<<"vtet", d, 0, 0>> : d \in 0..DTet}
       \cup {<<"lobatto", m, 0, 0>> : m \in 2..NLob}
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) = D THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \E o \in Ops : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
