---------------------------- MODULE TransferGen ----------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Two == {"tri", "quad", "curved"}
Three == {"tet", "hex"}
Setups == ({"scalar", "vector", "curl", "mag"} \X (Two \cup Three))
Asks == ({"set", "apply"} \X {"", "state", "coords", "both", "zero"}) \cup ({"vjp"} \X {"state", "mesh_coords", "out", "other"})
Init == done = FALSE /\ \E s \in Setups : h = <<<<"build", s[1], s[2]>>>>
Next == ~done /\ IF Len(h) > D THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E a \in Asks : h' = Append(h, a)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
