---------------------------- MODULE MagResTrace ----------------------------
EXTENDS MagRes, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ form' = [basis |-> "none"] /\ val' = None /\ lin' = None
  \/ Is("Res") /\ Make(Ev) /\ AreThese(Ev.terms, MTerms(Ev)) /\ Range(Ev.numbers) = MNumbers(Ev) /\ IsMPrec(Ev.prec, Ev.has)
  \/ Is("Set") /\ Set(Ev.set)
  \/ Is("Eval") /\ Eval(Ev.set) /\ Ev.at = val' /\ IsDriven(Ev.got, Ev.sum, Ev.load, form.ess)
  \/ Is("Linearize") /\ Linearize(Ev.set) /\ Ev.at = val'
  \/ Is("Product") /\ Use /\ Ev.at = lin
     /\ (IF Ev.wrt \in MNumbers(form) THEN AddsCurrent(Ev.mode, Ev.pre, Ev.post, Ev.seed, Ev.L, form.ess) ELSE Adds(Ev.pre, Ev.post, Ev.part))
  \/ Is("Use") /\ Use /\ Ev.at = lin /\ (IF Ev.what = "adjoint" THEN IsAdjoint(Ev.got, Ev.want) ELSE IsSame(Ev.got, Ev.want))
  \/ Is("End") /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_<<tvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
