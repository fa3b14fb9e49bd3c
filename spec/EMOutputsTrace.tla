-------------------------- MODULE EMOutputsTrace --------------------------
EXTENDS EMOutputs, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("Out") /\ Out(Ev) /\ Moves(Ev)
  \/ Is("Set") /\ Set(Ev.set)
  \/ Is("Value") /\ Value(Ev.set) /\ Ev.at = val' /\ IsValue(Ev.got, Ev.num, Ev.p)
  \/ Is("Deriv") /\ Deriv(Ev.wrt) /\ Ev.err = "" /\ Ev.at = val /\ IsDeriv(Ev.a, Ev.pre, Ev.post, Ev.y, Ev.F, Ev.h)
     /\ (Ev.wrt \in Range(form.scalars) => IsPower(form.out, Ev.wrt, DSub(Ev.post[1], Ev.pre[1]), Ev.y[1], Ev.f[1], Ev.num[Ev.wrt]))
  \/ Is("End") /\ UNCHANGED evars
TSpec == TInit /\ [][TNext]_<<evars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
