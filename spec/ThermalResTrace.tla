-------------------------- MODULE ThermalResTrace --------------------------
EXTENDS ThermalRes, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ form' = [basis |-> "none"] /\ val' = None /\ lin' = None
  \/ Is("Res") /\ Make(Ev) /\ AreTerms(Ev.terms, Ev) /\ Range(Ev.numbers) = Numbers(Ev) /\ IsPrec(Ev.prec, Ev.has)
  \/ Is("Set") /\ Set(Ev.set) /\ Ev.kept
  \/ Is("Eval") /\ Eval(Ev.set) /\ Ev.kept /\ Ev.at = val' /\ Ev.load = (IF val'.thermal_load = 0 THEN <<>> ELSE Ev.load) /\ IsResidual(Ev.got, Ev.sum, Ev.load, form.ess)
  \/ Is("Linearize") /\ Linearize(Ev.set) /\ Ev.kept /\ Ev.at = val'
  \/ Is("Product") /\ Use /\ Ev.at = lin /\ (IF Ev.wrt = "thermal_load" THEN AddsLoad(Ev.pre, Ev.post, Ev.seed, form.ess) ELSE Adds(Ev.pre, Ev.post, Ev.part))
  \/ Is("Use") /\ Use /\ Ev.at = lin /\ (IF Ev.what = "adjoint" THEN IsAdjoint(Ev.got, Ev.want) ELSE IsSame(Ev.got, Ev.want))
  \/ Is("End") /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_<<tvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
