-------------------------- MODULE CurrentSourceGen --------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Setups == ({"density", "magnets"} \X {"tri", "quad", "tet", "hex"} \X {"flat", "curved"}) \cup ({"load"} \X {"tet", "hex"} \X {"flat", "curved"})
Dens == {<<"set", "one">>, <<"set", "all">>, <<"set", "par">>, <<"set", "same">>, <<"set", "none">>, <<"cache", "">>, <<"zero", "">>, <<"restore", "">>, <<"eval", "">>}
Lds == {<<"set", "one">>, <<"set", "all">>, <<"set", "par">>, <<"set", "same">>, <<"move", "">>, <<"add", "">>, <<"add", "">>, <<"vjp", "group">>, <<"vjp", "other">>, <<"mesh", "">>}
Init == done = FALSE /\ \E s \in Setups : h = <<<<s[1], s[2], s[3]>>>>
Next == ~done /\ IF Len(h) > D THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E a \in (CASE h[1][1] = "load" -> Lds [] h[1][1] = "density" -> Dens [] OTHER -> {<<"eval", "">>}) : h' = Append(h, a)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
