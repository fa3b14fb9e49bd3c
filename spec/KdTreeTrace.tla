----------------------------- MODULE KdTreeTrace ----------------------------
EXTENDS KdTree, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TDist(p, q) == VNorm(VSub(p, q))
TLeq(a, b) == DLe(a, DMul(b, DDec("1.000000000001")))
TSameD(a, b) == DClose(a, b, DDec("1e-12"), DInt(0))
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Reset
  \/ Is("Add") /\ Add(Ev.x, Ev.id)
  \/ Is("Finalize") /\ Finalize
  \/ Is("Make") /\ Make(Ev.pts)
  \/ Is("Query") /\ Query(Ev.x, Ev.id, Ev.d, Ev.err)
  \/ Is("Empty") /\ Empty(Ev.r)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
