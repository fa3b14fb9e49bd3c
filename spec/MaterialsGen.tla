---------------------------- MODULE MaterialsGen ----------------------------
\* Histories: solvers are made from components of every shape, coefficients
\* are built from them, inputs arrive, values are read, in every order.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Shapes
VARIABLES h, done
vv == <<h, done>>
Ops == {<<"solver", s, ctor>> : s \in Shapes, ctor \in {"count", "function"}}
   \cup {<<"coeff", p>> : p \in {"rho", "kappa", "cv", "drho_df", "dkappa_df", "other"}}
   \cup {<<"input", n>> : n \in {"fill_factor", "unrelated"}} \cup {<<"eval", "all">>, <<"look", "all">>}
Count(o) == LET RECURSIVE C(_)
                C(i) == IF i = 0 THEN 0 ELSE C(i - 1) + (IF h[i][1] = o THEN 1 ELSE 0) IN C(Len(h))
Ok(o) == CASE o[1] = "coeff" -> Count("solver") > 0
           [] o[1] \in {"input", "eval"} -> Count("coeff") > 0
           [] o[1] = "look" -> Count("solver") > 0
           [] OTHER -> TRUE
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \E o \in Ops : Ok(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
