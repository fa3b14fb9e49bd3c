------------------------------ MODULE FacadeGen ------------------------------
\* Histories of calls on a solver: which output, which inputs are given, what
\* is differentiated; the numbers come from the driver script.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Names == {"A", "B", "C"}
Ins == {"none", "x", "v", "state", "all", "bad"}
Wrts == {"x", "v", "state", "other"}
Creates == {<<"create", o, k>> : o \in Names, k \in {"one", "many", "bogus"}}
OutOps == {<<"size", o>> : o \in Names} \cup {<<"options", o>> : o \in Names}
          \cup {<<"calc", o, i>> : o \in Names, i \in Ins}
          \cup {<<m, o, i, w>> : m \in {"partial", "jvp", "vjp"}, o \in Names, i \in Ins, w \in Wrts}
ResOps == {<<"residual", i>> : i \in Ins \ {"none"}} \cup {<<"norm", i>> : i \in Ins} \cup {<<"linearize", i>> : i \in Ins}
          \cup {<<m, w, s>> : m \in {"rjvp", "rvjp"}, w \in Wrts, s \in {"scalar", "vector"}}
          \cup {<<"unsteady", u>> : u \in {"yes", "no"}} \cup {<<"adjoint">>}
Sizes == {<<"statesize">>} \cup {<<"fieldsize", f>> : f \in {"state", "residual", "adjoint", "mesh_coords"}}
Touches == {<<m, b>> : m \in {"touch", "setstate"}, b \in {"p", "q"}}
Init == done = FALSE /\ h \in {<< <<"solver", k>> >> : k \in {"spatial", "spacetime", "none"}}
Ops == IF h[1][2] = "spatial" THEN 1..6 ELSE {1, 2, 5, 6}
Pick(c) == CASE c = 1 -> Creates [] c = 2 -> OutOps [] c = 3 -> ResOps [] c = 4 -> ResOps [] c = 5 -> Sizes [] c = 6 -> Touches
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
        ELSE UNCHANGED done /\ \E c \in Ops : \E o \in (IF c = 2 /\ \A j \in 1..Len(h) : h[j][1] # "create" THEN Creates ELSE Pick(c)) : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
