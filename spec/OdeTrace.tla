------------------------------ MODULE OdeTrace ------------------------------
EXTENDS Ode, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Construct") /\ Construct(Ev.type, Ev.err)
  \/ Is("Begin") /\ Begin(Ev.x, Ev.t, Ev.dt, Ev.near)
  \/ Is("Solve") /\ Solve(Ev.y, Ev.h, Ev.time, Ev.guess, Ev.kin, Ev.k, Ev.resid, Ev.tol)
  \/ Is("EntropyChange") /\ EntropyChange(Ev.y, Ev.h, Ev.time, Ev.k, Ev.d)
  \/ Is("Entropy") /\ Entropy(Ev.y, Ev.s)
  \/ Is("Done") /\ Done(Ev.x, Ev.t, Ev.dt)
  \/ Is("Failed") /\ Failed(Ev.x, Ev.t)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
