----------------------------- MODULE OpAlgTrace -----------------------------
EXTENDS OpAlg, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("Mat") /\ Mat(Ev.id, Ev.M)
  \/ Is("Sum0") /\ Sum0(Ev.id, Ev.h, Ev.w)
  \/ Is("NewSum") /\ NewSum(Ev.id, Ev.a, Ev.i, Ev.b, Ev.j, Ev.err)
  \/ Is("Add") /\ Add(Ev.id, Ev.a, Ev.i, Ev.b, Ev.j, Ev.err)
  \/ Is("Mult") /\ Mult(Ev.id, Ev.x, Ev.y, Ev.h, Ev.w)
  \/ Is("JF") /\ NewJF(Ev.id, [A |-> Ev.A, c |-> Ev.c, b |-> Ev.b, d |-> Ev.d], Ev.off, Ev.E, Ev.stored, Ev.ek, Ev.bk)
  \/ Is("Scaling") /\ Scaling(Ev.id, Ev.s)
  \/ Is("State") /\ State(Ev.id, Ev.u)
  \/ Is("Block") /\ Block(Ev.id, Ev.k, Ev.M, Ev.err)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
