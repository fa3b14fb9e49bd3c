----------------------------- MODULE SurfaceGen -----------------------------
\* Histories: surfaces are made from curves or boundaries of plane meshes,
\* asked for distances of points of every kind, their source mesh is moved or
\* goes away, and they are asked again.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done
vv == <<h, done>>
Shapes == {"open", "closed", "uneven", "volume", "tri"}
Makes == {<<"make", s, ToString(p)>> : s \in Shapes, p \in 0..3}
Asks == {<<"ask", c>> : c \in {"above", "below", "vertex", "beyond", "far", "on", "node", "centre"}}
Others == {<<"element", "any">>, <<"move", "any">>, <<"drop", "any">>}
Init == h \in {<<m>> : m \in Makes} /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D /\ h[Len(h)][1] = "ask" THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \/ \E a \in Asks : h' = Append(h, a)
                                  \/ Len(h) < D /\ \E a \in Others : h[Len(h)] # a /\ h' = Append(h, a)
                                  \/ D > 4 /\ Len(h) < D /\ h[Len(h)][1] = "ask" /\ \E m \in Makes : h' = Append(h, m)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
