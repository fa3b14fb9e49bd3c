----------------------------- MODULE MarchTrace ----------------------------
EXTENDS March, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
E0 == DInt(0)
E1 == DInt(1)
Tiny(tt, d) == DAdd(DMul(DDec("1e-15"), DAbs(tt)), DMul(DDec("1e-12"), d))
TBase(p, tt, d) ==
  LET w == IF p.exact THEN DMin(p.dt, DSub(p.tf, tt)) ELSE p.dt IN
  /\ DLe(DAbs(DSub(d, w)), DMul(DDec("1e-14"), p.dt))
  /\ DLt(E0, d)
  /\ p.exact => DLe(DAdd(tt, d), DAdd(p.tf, DMul(DDec("4e-16"), DAdd(DAbs(p.tf), DAbs(tt)))))
TMay(tt, tf, d) == DLe(DSub(tf, Tiny(tf, d)), tt)
TMust(tt, tf, d) == DLe(tf, tt)
TAdv(ty, x, d, k, y) ==
  /\ Len(k) = 1
  /\ IF ty = "steady" THEN DSame(VNorm(VSub(k[1], y)), E0) \/ VSame(k[1], y)
     ELSE VClose(y, VAxpy(d, k[1], x), DDec("1e-14"), E0)
TAdd(a, b) == DAdd(a, b)
TSame(a, b) == DEq(a, b)
TSameV(a, b) == VSame(a, b)
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("Begin") /\ Begin(Ev.q, Ev.x)
  \/ Is("InitialHook") /\ InitialHook(Ev.x)
  \/ Is("StepSize") /\ StepSize(Ev.i, Ev.t, Ev.tf, Ev.dtold, Ev.x, Ev.dt)
  \/ Is("IterationHook") /\ IterationHook(Ev.i, Ev.t, Ev.dt, Ev.x)
  \/ Is("Slope") /\ Slope(Ev.k)
  \/ Is("Exit") /\ Exit(Ev.i, Ev.t, Ev.tf, Ev.dt, Ev.x, Ev.stop)
  \/ Is("TerminalHook") /\ TerminalHook(Ev.i, Ev.t, Ev.x)
  \/ Is("Newton") /\ Newton(Ev.guess, Ev.x, Ev.y)
  \/ Is("BeginAdjoint") /\ BeginAdjoint(Ev.q, Ev.bar)
  \/ Is("SetUp") /\ SetUp(Ev.bar, Ev.rhs)
  \/ Is("AdjointSolve") /\ AdjointSolve(Ev.rhs, Ev.y)
  \/ Is("Finalize") /\ FinalizeAdjoint(Ev.rhs, Ev.x, Ev.y)
  \/ Is("Return") /\ Return(Ev.x, Ev.recs)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
