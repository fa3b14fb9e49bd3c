--------------------------- MODULE ThermalResGen ---------------------------
\* Histories: a residual, inputs given in every grouping, values, derivatives.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Which == {"one", "some", "all", "load"}
Ops == {<<"set", w>> : w \in Which} \cup {<<"eval", w>> : w \in Which} \cup {<<"lin", w>> : w \in Which}
       \cup {<<"product", m, w>> : m \in {"jvp", "vjp"}, w \in {"load", "mesh", "number", "state"}} \cup {<<"jac">>, <<"jact">>, <<"adjoint">>}
Init == done = FALSE /\ h \in {<< <<"res", b>> >> : b \in {"H1", "L2"}}
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
        ELSE UNCHANGED done /\ \E o \in Ops : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
