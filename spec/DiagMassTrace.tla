--------------------------- MODULE DiagMassTrace ---------------------------
EXTENDS DiagMass, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TRoot(a, d) == IF d = 1 THEN a ELSE IF d = 2 THEN DSqrt(a) ELSE DPow(a, DRat(1, 3))
TZero == DInt(0)
TPos(a) == DLt(DInt(0), a)
TRV(d) == IF d = 1 THEN DInt(1) ELSE IF d = 2 THEN DRat(1, 2) ELSE DRat(1, 6)
TNear(a, b) == DClose(a, b, DDec("1e-11"), DInt(0))
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ integ' = [ns |-> 1, vary |-> FALSE] /\ total' = Zero
  \/ Is("Make") /\ Make(Ev.ns, Ev.vary)
  \/ Is("Assemble") /\ Assemble(Ev.dim, Ev.w, Ev.J, Ev.size, Ev.ent)
  \/ Is("Total") /\ Total(Ev.t)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
