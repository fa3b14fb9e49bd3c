------------------------------ MODULE FormsGen ------------------------------
\* Histories: a form, inputs given to it in every grouping, values taken,
\* linearisations, products with derivatives, adjoint systems.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Part
VARIABLES h, done
vv == <<h, done>>
Kinds == {"residual", "load", "functional"}
Which == {"one", "some", "all"}
Sets == {<<"set", w, m>> : w \in Which, m \in {"plain", "extra", "split"}}
Values == {<<"value", w>> : w \in Which}
Lins == {<<"lin", w>> : w \in {"jac", "linearize"}}
Modes(k) == IF k = "functional" THEN {"jvp", "vjp", "partial"} ELSE {"jvp", "vjp"}
Derivs(k) == {<<"deriv", m, w>> : m \in Modes(k), w \in {"state", "mesh", "other"}}
Misses(k) == {<<"missing", w>> : w \in IF k = "residual" THEN {"product", "jac", "value"} ELSE IF k = "load" THEN {} ELSE {"value"}}
Ops(k) == IF Part = "values" THEN Sets \cup Values \cup Misses(k) \cup (IF k = "residual" THEN Lins ELSE {})
          ELSE {<<"set", "all", "plain">>, <<"set", "some", "plain">>} \cup Derivs(k) \cup (IF k = "residual" THEN Lins \cup {<<"adjoint">>} ELSE {})
Init == done = FALSE /\ h \in {<< <<"form", k>> >> : k \in Kinds}
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
        ELSE UNCHANGED done /\ \E o \in Ops(h[1][2]) : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
