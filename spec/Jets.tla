-------------------------------- MODULE Jets --------------------------------
(* Values with their first and second derivatives: a jet of N variables is a *)
(* value v, its gradient g and its Hessian h, all doubles (IEEE).  A formula *)
(* written once in jets has the derivatives of the formula, by construction. *)
EXTENDS IEEE, Naturals, Sequences, TLC
N == 3
Z == DInt(0)
V_ == 1..N
JC(c) == TLCEval([v |-> c, g |-> [i \in V_ |-> Z], h |-> [i \in V_ |-> [j \in V_ |-> Z]]])
JVar(x, k) == TLCEval([v |-> x, g |-> [i \in V_ |-> DInt(IF i = k THEN 1 ELSE 0)], h |-> [i \in V_ |-> [j \in V_ |-> Z]]])
JAdd(a, b) == TLCEval([v |-> DAdd(a.v, b.v), g |-> [i \in V_ |-> DAdd(a.g[i], b.g[i])],
               h |-> [i \in V_ |-> [j \in V_ |-> DAdd(a.h[i][j], b.h[i][j])]]])
JScale(s, a) == TLCEval([v |-> DMul(s, a.v), g |-> [i \in V_ |-> DMul(s, a.g[i])],
                 h |-> [i \in V_ |-> [j \in V_ |-> DMul(s, a.h[i][j])]]])
JSub(a, b) == JAdd(a, JScale(DNeg(DInt(1)), b))
JMul(a, b) == TLCEval([v |-> DMul(a.v, b.v), g |-> [i \in V_ |-> DAdd(DMul(a.g[i], b.v), DMul(a.v, b.g[i]))],
               h |-> [i \in V_ |-> [j \in V_ |->
                  DAdd(DAdd(DMul(a.h[i][j], b.v), DMul(a.v, b.h[i][j])),
                       DAdd(DMul(a.g[i], b.g[j]), DMul(a.g[j], b.g[i])))]]])
(* f(a), where f has the value f0 and the derivatives f1, f2 at a.v           *)
JChain(a, f0, f1, f2) ==
   TLCEval([v |-> f0, g |-> [i \in V_ |-> DMul(f1, a.g[i])],
    h |-> [i \in V_ |-> [j \in V_ |-> DAdd(DMul(f1, a.h[i][j]), DMul(f2, DMul(a.g[i], a.g[j])))]]])
JInv(a) == LET r == DDiv(DInt(1), a.v) IN JChain(a, r, DNeg(DMul(r, r)), DMul(DInt(2), DMul(r, DMul(r, r))))
JDiv(a, b) == JMul(a, JInv(b))
JExp(a) == LET e == DExp(a.v) IN JChain(a, e, e, e)
(* the polynomial c[1] + c[2] x + c[3] x^2 + ...                              *)
RECURSIVE JHorner(_, _, _)
JHorner(c, x, k) == IF k > Len(c) THEN JC(Z) ELSE JAdd(JC(c[k]), JMul(x, JHorner(c, x, k + 1)))
JPoly(c, x) == JHorner(c, x, 1)

(* B-splines by the recursion of Cox and de Boor; t the knots, p the degree,  *)
(* the last knot belongs to the last interval                                 *)
LastSpan(t) == CHOOSE i \in 1..(Len(t) - 1) : DLt(t[i], t[i + 1]) /\ \A j \in (i + 1)..(Len(t) - 1) : t[j] = t[j + 1]
RECURSIVE Basis(_, _, _, _)
Basis(t, i, p, u) ==
   IF p = 0 THEN DInt(IF (DLe(t[i], u) /\ DLt(u, t[i + 1])) \/ (u = t[Len(t)] /\ i = LastSpan(t)) THEN 1 ELSE 0)
   ELSE LET w(k) == IF DLt(t[k], t[k + p]) THEN DDiv(DSub(u, t[k]), DSub(t[k + p], t[k])) ELSE Z
        IN DAdd(DMul(w(i), Basis(t, i, p - 1, u)), DMul(DSub(DInt(1), w(i + 1)), IF DLt(t[i + 1], t[i + 1 + p]) THEN Basis(t, i + 1, p - 1, u) ELSE Z))
Spline(c, t, p, u) == VSum(TLCEval([i \in 1..Len(c) |-> DMul(c[i], Basis(t, i, p, u))]))
(* the control points of the derivative (knots without the first and last)    *)
DCtrl(c, t, p) == TLCEval([i \in 1..(Len(c) - 1) |->
   IF DLt(t[i + 1], t[i + 1 + p]) THEN DDiv(DMul(DInt(p), DSub(c[i + 1], c[i])), DSub(t[i + 1 + p], t[i + 1])) ELSE Z])
RECURSIVE DSpline(_, _, _, _, _)
DSpline(c, t, p, u, k) ==
   IF k = 0 THEN Spline(c, t, p, u)
   ELSE IF p = 0 THEN Z
   ELSE DSpline(DCtrl(c, t, p), SubSeq(t, 2, Len(t) - 1), p - 1, u, k - 1)
JSpline(c, t, p, a) == JChain(a, Spline(c, t, p, a.v), DSpline(c, t, p, a.v, 1), DSpline(c, t, p, a.v, 2))
=============================================================================
