----------------------------- MODULE OrthoTrace ----------------------------
EXTENDS Ortho, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TScale(c, x) == VScale(DInt(c), x)
TOne(x) == VConst(Len(x), DInt(1))
TRoot(P, p, q, h) == VClose(P, VScale(DSqrt(DRat(p, q)), h), DDec("1e-10"), DDec("1e-10"))
RECURSIVE Moments(_, _, _, _)
Moments(x, wx, e, m) ==
  e > m \/ ( /\ DClose(VSum(wx), IF e % 2 = 1 THEN DInt(0) ELSE DRat(2, e + 1), DDec("1e-12"), DDec("1e-12"))
             /\ Moments(x, VMul(wx, x), e + 1, m))
TLob(k, x, w) ==
  /\ Len(x) = k /\ Len(w) = k
  /\ \A i \in 1..k : DLt(DInt(0), w[i]) /\ (i > 1 => DLt(x[i - 1], x[i]))
  /\ DClose(x[1], DInt(-1), DDec("1e-15"), DInt(0)) /\ DClose(x[k], DInt(1), DDec("1e-15"), DInt(0))
  /\ Moments(x, w, 0, 2 * k - 3)
Half(x) == VScale(DRat(1, 2), x)
U1(x) == Half(VAdd(TOne(x), x))                  \* (1+x)/2
D1(x) == Half(VSub(TOne(x), x))                  \* (1-x)/2
R2(x, y) == Half(VScale(DInt(-1), VAdd(x, y)))   \* 1 - u - v
R3(x, y, z) == Half(VScale(DInt(-1), VAdd(VAdd(x, y), VAdd(z, TOne(x)))))
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ n' = 0
  \/ Is("Jacobi") /\ Jacobi(Ev.d, Ev.al, Ev.be, D1(Ev.x), U1(Ev.x), Ev.P)
  \/ Is("Tri") /\ Tri(Ev.i, Ev.j, U1(Ev.x), U1(Ev.y), R2(Ev.x, Ev.y), Ev.P)
  \/ Is("Tet") /\ Tet(Ev.i, Ev.j, Ev.k, U1(Ev.x), U1(Ev.y), U1(Ev.z), R3(Ev.x, Ev.y, Ev.z), Ev.P)
  \/ Is("VanderSeg") /\ VanderSeg(Ev.d, D1(Ev.x), U1(Ev.x), Ev.V)
  \/ Is("VanderTri") /\ VanderTri(Ev.d, U1(Ev.x), U1(Ev.y), R2(Ev.x, Ev.y), Ev.V)
  \/ Is("VanderTet") /\ VanderTet(Ev.d, U1(Ev.x), U1(Ev.y), U1(Ev.z), R3(Ev.x, Ev.y, Ev.z), Ev.V)
  \/ Is("Lobatto") /\ Lobatto(Ev.k, Ev.x, Ev.w)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
