---------------------------- MODULE BlockJacTrace ----------------------------
EXTENDS BlockJac, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
ToSet(s) == {s[i] : i \in DOMAIN s}
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("New") /\ New(Ev.off, Ev.own)
  \/ Is("Solver") /\ Solver(Ev.s, Ev.B)
  \/ Is("Set") /\ Set(Ev.k, Ev.s)
  \/ Is("SetOp") /\ SetOp(Ev.what, Ev.Bs, Ev.err)
  \/ Is("Mult") /\ Mult(Ev.x, Ev.y, Ev.tr, Ev.xafter)
  \/ Is("Shape") /\ Shape(Ev.nb, Ev.blocks)
  \/ Is("Delete") /\ Delete({})
  \/ Is("Dead") /\ Dead(ToSet(Ev.dead))
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
