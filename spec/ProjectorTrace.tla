--------------------------- MODULE ProjectorTrace ---------------------------
EXTENDS Projector, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TClose(a, b, s) == LET n == DMax(VNorm(s), VNorm(b)) IN
  Len(a) = Len(b) /\ DLe(VNorm(VSub(a, b)), DMul(DDec("1e-9"), n)) = TRUE
TZeroV(v) == DEq(v[1], DInt(0))
TMul2(A, x) == MatVec(A, x)
\* p . d/dh P(x; mesh + h dir), from projections on both sides of the mesh
MeshVjp(x, p, dir, h, Wp, Wm, yp, ym, psip, psim, bar, out) ==
  /\ Irrot(Wp, grad, inner, x, Part(x, yp), psip)
  /\ Irrot(Wm, grad, inner, x, Part(x, ym), psim)
  /\ LET fd == DDiv(DSub(VDot(p, yp), VDot(p, ym)), DMul(DInt(2), h))
         an == VDot(VSub(out, bar), dir)
         \* the scale of the terms, and what roundoff does to the difference
         sc == DAdd(DMul(DMul(VNorm(p), VNorm(x)), VNorm(dir)), VNorm(bar)) IN
     DLe(DAbs(DSub(fd, an)), DMul(DDec("1e-4"), DAdd(DAbs(fd), sc))) = TRUE
  /\ used' = Now /\ UNCHANGED <<kind, grad, inner, mesh>>
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ kind' = "" /\ grad' = None /\ inner' = {} /\ mesh' = None /\ used' = None
  \/ Is("Build") /\ Build(Ev.kind, Ev.G, {Ev.inner[i] : i \in 1..Len(Ev.inner)}, Ev.W)
  \/ Is("Move") /\ Move(Ev.W)
  \/ Is("Notify") /\ Notify(Ev.coords)
  \/ Is("Mult") /\ Mult(Ev.x, Ev.y, Ev.psi)
  \/ Is("VjpIn") /\ VjpIn(Ev.p, Ev.bar, Ev.out, Ev.phi)
  \/ Is("VjpMesh") /\ MeshVjp(Ev.x, Ev.p, Ev.dir, Ev.h, Ev.Wp, Ev.Wm, Ev.yp, Ev.ym, Ev.psip, Ev.psim, Ev.bar, Ev.out)
  \/ Is("End") /\ UNCHANGED vars
  \* a derivative by anything else is zero
  \/ Is("VjpOther") /\ VSame(Ev.bar, Ev.out) = TRUE /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
