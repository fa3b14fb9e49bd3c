---------------------------- MODULE ProjectorGen ----------------------------
\* Projectors on meshes of every kind; projections, their transposes and mesh
\* sensitivities between moves of the mesh, each announced before it is used.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Meshes
VARIABLES h, stale, set, done
vv == <<h, stale, set, done>>
Ask == {<<"mult">>, <<"vjp", "in">>, <<"vjp", "mesh">>, <<"vjp", "other">>}
Init == /\ \E m \in Meshes, k \in {"irrotational", "divergence-free"} : h = <<<<"build", m, k>>>>
        /\ stale = FALSE /\ set = FALSE /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED <<h, stale, set>>
           ELSE UNCHANGED done /\ (
             \/ \E o \in Ask : ~stale /\ h' = Append(h, o) /\ set' = TRUE /\ UNCHANGED stale
             \/ h' = Append(h, <<"move">>) /\ stale' = set /\ UNCHANGED set
             \/ \E c \in {"coords", "others", "both"} : h' = Append(h, <<"notify", c>>)
                  /\ stale' = (IF c = "others" THEN stale ELSE FALSE)
                  /\ set' = (IF c = "others" THEN set ELSE FALSE))
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
