---------------------------- MODULE FlowResGen ----------------------------
\* Discretizations, domains and what is asked of them.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done
vv == <<h, done>>
States == {"free", "uniform", "wave", "wlinear", "smooth", "random"}
\* one history starts with the choice of the problem
Space == {<<1, "csbp">>, <<2, "csbp">>, <<2, "dsbp">>, <<3, "csbp">>}
Physics == {<<"IR", "cons", FALSE>>, <<"IR", "ent", FALSE>>, <<"Euler", "cons", FALSE>>, <<"IR", "cons", TRUE>>, <<"Euler", "cons", TRUE>>}
Domains == {<<>>, <<"far-field">>, <<"slip-wall">>, <<"mixed">>, <<"driven">>}
Ask == {<<"Residual", s>> : s \in States} \cup {<<"Jacobian", s>> : s \in {"random", "smooth"}}
       \cup {<<"OutputDeriv", "random">>, <<"TimeStep", "random">>, <<"L2Error", "random">>}
Init == /\ \E s \in Space, p \in Physics, d \in Domains, lps, jump \in BOOLEAN :
             /\ ~(s[2] = "dsbp" /\ p[3]) /\ (s[2] = "csbp" => ~jump)
             /\ h = <<<<"setup", s[1], s[2], p[1], p[2], p[3], d, lps, jump>>>>
        /\ done = FALSE
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E o \in Ask : h' = Append(h, o)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
