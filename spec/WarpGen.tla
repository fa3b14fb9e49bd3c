------------------------------ MODULE WarpGen ------------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT D
VARIABLES h, done
vv == <<h, done>>
Setups == {"tri", "quad", "tet", "hex"} \X {1, 2} \X {"none", "vdim", "nodes"} \X {"flat", "curved"}
Asks == ({"residual"} \X {"rest", "surf", "free", "moved"}) \cup ({"norm"} \X {"surf", "free"}) \cup ({"solve"} \X {"same", "shift", "affine", "random", "twice"})
Lin == ({"lin"} \X {"given", "moved"}) \cup ({"jvp", "vjp"} \X {"state", "surf", "other"}) \cup ({"adjoint", "total"} \X {""})
Init == done = FALSE /\ \E s \in Setups : h = <<<<"build", s[1], s[2], s[3], s[4]>>>>
Was(ops) == \E i \in 1..Len(h) : h[i][1] \in ops
Next == ~done /\ IF Len(h) > D THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E a \in Asks \cup Lin :
                      /\ a[1] \in {"jvp", "vjp", "adjoint", "total"} => Was({"lin", "solve"})
                      /\ h' = Append(h, a)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
