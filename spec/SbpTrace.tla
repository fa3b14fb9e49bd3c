------------------------------ MODULE SbpTrace -----------------------------
EXTENDS Sbp, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TNear(x, y, s) == VClose(x, y, DDec("1e-10"), DMul(s, DDec("1e-10")))
TPos(x) == DLt(DInt(0), x)
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ el' = <<>> /\ buf' = <<>> /\ UNCHANGED seen
  \/ Is("Element") /\ Element(Ev.e)
  \/ Is("StrongMat") /\ StrongMat(Ev.c, Ev.tr, Ev.A)
  \/ Is("WeakMat") /\ WeakMat(Ev.c, Ev.tr, Ev.A)
  \/ Is("StrongRow") /\ StrongRowQ(Ev.c, Ev.i, Ev.r)
  \/ Is("ProjMat") /\ ProjMat(Ev.A) /\ Near1(Ev.E, el.P)
  \/ Is("Buffer") /\ Buffer(Ev.B)
  \/ Is("Norm") /\ Norm(Ev.u, Ev.B)
  \/ Is("NormInv") /\ NormInv(Ev.u, Ev.B)
  \/ Is("Weak") /\ Weak(Ev.c, Ev.tr, Ev.u, Ev.B)
  \/ Is("Proj") /\ Proj(Ev.tr, Ev.u, Ev.B)
  \/ Is("WeakNode") /\ WeakNode(Ev.c, Ev.i, Ev.u, Ev.r)
  \/ Is("StrongNode") /\ StrongNode(Ev.c, Ev.i, Ev.u, Ev.r)
  \/ Is("Entries") /\ Entries(Ev.c, Ev.i, Ev.j, Ev.Ai, Ev.Aj, Ev.q, Ev.sym, Ev.skew, Ev.phys)
  \/ Is("SkewRev") /\ SkewRev(Ev.c, Ev.i, Ev.j, Ev.s, Ev.bi, Ev.bj, Ev.ai, Ev.aj)
  \/ Is("Shape") /\ Shape(Ev.node, Ev.x, Ev.sh)
  \/ Is("DShape") /\ DShape(Ev.node, Ev.ds, Ev.err)
  \/ Is("Index") /\ Index(Ev.node, Ev.r, Ev.err)
  \/ Is("Coords") /\ Coords(Ev.c, Ev.x)
  \/ Is("Mesh") /\ Mesh(Ev.cont, Ev.nodes, Ev.bdr)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
