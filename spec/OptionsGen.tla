----------------------------- MODULE OptionsGen -----------------------------
\* Solvers made from user options of every shape, solvers built from options of
\* every type, in every order.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Kinds
VARIABLES h, done
vv == <<h, done>>
Lin == {"hypregmres", "gmres", "hyprefgmres", "fgmres", "hyprepcg", "pcg", "minres", "bicgstab", "default"}
All == {<<"solver", s>> : s \in {"empty", "leaf", "deep", "null", "replace", "add", "array", "silent", "print", "many"}}
   \cup {<<"linear", t, p>> : t \in Lin, p \in {"none", "prec"}}
   \cup {<<"adjoint", t>> : t \in {"gmres", "pcg", "fgmres", "minres"}}
   \cup {<<"nonlinear", t, a>> : t \in {"newton", "inexactnewton", "relaxednewton", "none", "broyden"}, a \in {"plain", "extra"}}
   \cup {<<"ode", t>> : t \in {"RK1", "RK4", "MIDPOINT", "RRK", "RRKMIDPOINT", "RRK6", "PTC", "steady", "BDF2", "deprecated"}}
   \cup {<<"look">>}
Ops == {o \in All : o[1] \in Kinds}
HasSolver == \E i \in 1..Len(h) : h[i][1] = "solver"
Ok(o) == IF o[1] = "look" THEN HasSolver ELSE TRUE
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ \E o \in Ops : Ok(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
