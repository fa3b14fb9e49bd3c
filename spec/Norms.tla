-------------------------------- MODULE Norms --------------------------------
(***************************************************************************)
(* Norms of fields and of differences between fields and functions.  A     *)
(* field is seen at its quadrature points, each with a weight (times the   *)
(* volume factor), the value of the field and that of the function.  The   *)
(* difference at a point is one component or the length of the vector.     *)
(* Weights may be negative, then so may be the norm.                       *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences
Zero == DInt(0)
\* component c of the difference, or its length for c = 0
Diff(q, c) == IF c = 0 THEN VNorm(VSub(q[2], q[3])) ELSE DAbs(DSub(q[2][c], q[3][c]))
Sum(Q, c, p) == VSum([i \in 1..Len(Q) |-> DMul(Q[i][1], DPow(Diff(Q[i], c), p))])
RECURSIVE Greatest(_, _, _)
Greatest(Q, c, i) == IF i = 0 THEN Zero ELSE DMax(Greatest(Q, c, i - 1), Diff(Q[i], c))
Root(s, p) == IF DLt(s, Zero) THEN DNeg(DPow(DNeg(s), DDiv(DInt(1), p))) ELSE DPow(s, DDiv(DInt(1), p))
\* p = "inf": the greatest difference
Norm(Q, c, p) == IF p = "inf" THEN Greatest(Q, c, Len(Q)) ELSE Root(Sum(Q, c, p), p)
\* the norm over several ranks, from those of the ranks
Joined(ns, p) ==
  IF p = "inf" THEN LET RECURSIVE G(_) G(i) == IF i = 0 THEN Zero ELSE DMax(G(i - 1), ns[i]) IN G(Len(ns))
  ELSE Root(VSum([i \in 1..Len(ns) |-> IF DLt(ns[i], Zero) THEN DNeg(DPow(DNeg(ns[i]), p)) ELSE DPow(ns[i], p)]), p)
=============================================================================
