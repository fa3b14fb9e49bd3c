---------------------------- MODULE TimeResTrace ----------------------------
EXTENDS TimeRes, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ New([A |-> Ev.A, c |-> Ev.c, b |-> Ev.b, d |-> Ev.d], Ev.M, Ev.mk)
  \/ Is("Vec") /\ Vec(Ev.s, Ev.v)
  \/ Is("Set") /\ Set(Ev.in)
  \/ Is("Eval") /\ Eval(Ev.r, Ev.after)
  \/ Is("Jac") /\ IF Ev.err = "" THEN Jac(Ev.x, Ev.y, Ev.after) ELSE JacErr(Ev.err)
  \/ Is("Forward") /\ Forward(Ev.what, Ev.said, Ev.got)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
