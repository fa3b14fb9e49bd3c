---------------------------- MODULE OptionsTrace ----------------------------
EXTENDS Options, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Sheet == JsonDeserialize("defaults.json")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
\* the golden ratio as the default exponent: (1 + sqrt 5) / 2
TDec(x) == IF x = "golden" THEN DMul(DDec("0.5"), DAdd(DInt(1), DSqrt(DInt(5)))) ELSE DDec(x)
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Same(Ev.dflt, Sheet) /\ Defaults(Ev.dflt)
  \/ Is("Solver") /\ Solver(Ev.id, Ev.user, Ev.seen, Ev.printed)
  \/ Is("Look") /\ Look(Ev.id, Ev.dflt, Ev.seen)
  \/ Is("Adjoint") /\ Adjoint(Ev.id, Ev.prec, Ev.r)
  \/ Is("Linear") /\ Linear(Ev.o, Ev.prec, Ev.r)
  \/ Is("Nonlinear") /\ Nonlinear(Ev.o, Ev.r)
  \/ Is("Ode") /\ Ode(Ev.o, Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
