------------------------------ MODULE ResModel ------------------------------
(* A residual of n equations R(u, t, p) = A u + c u^3 + t b + p d (cube     *)
(* elementwise), the stand-in for a discretised system: P = [A, c, b, d].   *)
EXTENDS Naturals, Sequences, IEEE
N0 == DInt(0)
N1 == DInt(1)
Cube(u) == VMul(u, VMul(u, u))
RVal(P, u, t, p) == VAxpy(p, P.d, VAxpy(t, P.b, VAxpy(P.c, Cube(u), MatVec(P.A, u))))
RJac(P, u, x) == VAxpy(DMul(DInt(3), P.c), VMul(VMul(u, u), x), MatVec(P.A, x))
RECURSIVE MatMax(_, _)
MatMax(A, n) == IF n = 0 THEN N0 ELSE DMax(MatMax(A, n - 1), VNormInf(A[n]))
Big(A) == DMul(DInt(Len(A)), MatMax(A, Len(A)))
\* magnitude of the terms of R, for rounding
RMag(P, u, t, p) ==
  LET m == VNormInf(u) IN
  DAdd(DAdd(DMul(Big(P.A), m), DMul(DAbs(P.c), DMul(m, DMul(m, m)))),
       DAdd(DMul(DAbs(t), VNormInf(P.b)), DMul(DAbs(p), VNormInf(P.d))))
JMag(P, u, x) ==
  LET m == VNormInf(u) IN DMul(DAdd(Big(P.A), DMul(DMul(DInt(3), DAbs(P.c)), DMul(m, m))), VNormInf(x))
\* matrix of the linear map with columns F(e_j)
Unit(n, j) == [i \in 1..n |-> IF i = j THEN N1 ELSE N0]
=============================================================================
