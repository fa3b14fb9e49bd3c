--------------------------- MODULE ComponentGen ---------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Bool == {TRUE, FALSE}
\* kind, how many inputs besides the mesh, partials checked, strided inputs, derivatives missing, ranks
Setups == ({"state"} \X {0, 1, 2} \X Bool \X Bool \X Bool \X {1}) \cup ({"functional"} \X {0, 1, 2} \X Bool \X Bool \X Bool \X {1, 2})
          \cup ({"warper"} \X {0} \X {FALSE} \X Bool \X {FALSE} \X {1})
Group == {"mesh", "builder"} \X {0, 1, 2} \X {FALSE} \X {FALSE} \X {FALSE} \X {1}
Products == {"apply"} \X {"fwd", "rev"} \X {"all", "some", "outputs", "zero", "none", "norow"}
Ops(k) == IF k = "functional" THEN {<<"compute">>} \cup ({"jac"} \X {"fwd", "rev"} \X {"all", "some", "zero", "none", "norow"})
          ELSE {<<"res">>, <<"solve">>, <<"lin">>} \cup Products \cup ({"inv"} \X {"fwd", "rev"} \X {"all", "zero"})
Init == done = FALSE /\ \E s \in Setups \cup Group : h = <<<<"build", s[1], s[2], s[3], s[4], s[5], s[6]>>>>
Kind == h[1][2]
\* OpenMDAO linearizes before it asks for products, and again after anything moved
Ready(o) == o[1] \in {"apply", "inv"} => h[Len(h)][1] \in {"lin", "apply", "inv"}
Next == ~done /\ IF Len(h) > D \/ Kind \in {"mesh", "builder"} THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E o \in Ops(Kind) : Ready(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
