------------------------------- MODULE OpAlgMC -------------------------------
(* Small instance: two 2x2 matrices, a 1x2, one sum that may contain another *)
(* sum, one matrix-free Jacobian; all weightings and base states.            *)
EXTENDS OpAlg, TLC
I(n) == IF n >= 0 THEN DInt(n) ELSE DNeg(DInt(0 - n))
Row(a, b) == <<I(a), I(b)>>
M1 == <<Row(1, 2), Row(0, 3)>>
M2 == <<Row(0, 1), Row(4, 0)>>
M3 == <<Row(1, 1)>>
Prob == [A |-> M1, c |-> I(1), b |-> Row(1, 0), d |-> Row(0, 0)]
Weights == {I(0), I(1), I(2)}
Xs == {Row(1, 0), Row(1, 2)}
\* the size of a sum contained in another must not be changed under it
SaneIn(id) == LET o == objs[id] IN o.kind = "sum" /\ o.i # None => H(o.i[1]) = o.h /\ H(o.j[1]) = o.h
Sane == \A k \in DOMAIN objs : SaneIn(k)
MCInit == objs = ("a" :> [kind |-> "mat", h |-> 2, w |-> 2, M |-> M1] @@ "b" :> [kind |-> "mat", h |-> 2, w |-> 2, M |-> M2]
              @@ "r" :> [kind |-> "mat", h |-> 1, w |-> 2, M |-> M3])
Ids == {"s", "t"}
MCNext ==
  \/ \E h \in 1..2 : "s" \notin DOMAIN objs /\ Sum0("s", h, 2)
  \/ \E a \in Weights, b \in {I(1), I(2)}, i \in DOMAIN objs \ {"t"}, j \in {"a", "r"} :
       /\ "t" \notin DOMAIN objs /\ ~(i = "s" /\ objs["s"].i # None /\ objs["s"].i[1] = "s")
       /\ NewSum("t", a, i, b, j, IF Fits(i, j) THEN "" ELSE "MISOException")
  \/ \E a \in Weights, b \in Weights, i \in {"a", "r", "j"} \cap DOMAIN objs, j \in {"b", "r"} :
       "s" \in DOMAIN objs /\ Add("s", a, i, b, j, IF Fits(i, j) THEN "" ELSE "MISOException")
  \/ "j" \notin DOMAIN objs /\ NewJF("j", Prob, <<1, 2, 3>>, <<M2>>, <<TRUE, FALSE>>, "dense", "dense")
  \/ \E s \in Weights : "j" \in DOMAIN objs /\ Scaling("j", s)
  \/ \E u \in Xs : "j" \in DOMAIN objs /\ State("j", u)
  \/ \E k \in 1..2 : "j" \in DOMAIN objs /\ Block("j", k, BlockOf(objs["j"], k), "")
  \/ Sane /\ \E id \in DOMAIN objs, x \in Xs : Mult(id, x, Apply(id, x), H(id), W(id))
MCSpec == MCInit /\ [][MCNext]_vars
\* every object is a linear map
Linear == \A id \in DOMAIN objs : Sane =>
  \A x \in Xs, z \in Xs : VEq(Apply(id, VAxpy(I(3), x, z)), VAxpy(I(3), Apply(id, x), Apply(id, z)))
\* its diagonal blocks are what it does to the unit vectors
Blocks == "j" \in DOMAIN objs => \A k \in 1..2 :
  LET o == objs["j"]
      full == [o EXCEPT !.stored = <<TRUE, TRUE>>]
      col == IF k = 1 THEN Row(1, 0) ELSE Row(0, 1) IN
  DEq(BlockOf(full, k)[1][1], Apply("j", col)[k])
=============================================================================
