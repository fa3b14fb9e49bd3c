----------------------------- MODULE FormsTrace -----------------------------
EXTENDS Forms, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("Form") /\ Form(Ev)
  \/ Is("Set") /\ Set(Ev.set)
  \/ Is("Value") /\ Value(Ev.set) /\ Ev.at = val' /\ IsValue(Ev.pre, Ev.got, Ev.fresh, Ev.state, Ev.bc)
  \/ Is("Lin") /\ Lin(Ev.set)
  \/ Is("Deriv") /\ Deriv(Ev.wrt, Ev.set) /\ Ev.err = "" /\ Ev.at = Where(Ev.wrt) /\ IsDeriv(Ev.a, Ev.pre, Ev.post, Ev.y, Ev.F, Ev.h)
  \/ Is("Adjoint") /\ Adjoint /\ Ev.at = lin /\ IsAdjoint(Ev.sb, Ev.psi, Ev.d, Ev.F, Ev.h)
  \/ Is("Missing") /\ Missing(Ev.err)
  \/ Is("End") /\ UNCHANGED fvars
TSpec == TInit /\ [][TNext]_<<fvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
