---------------------------- MODULE MarkersTrace ----------------------------
EXTENDS Markers, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ mesh' = None /\ form' = "" /\ terms' = <<>> /\ ess' = {}
  \/ Is("Load") /\ Load(Ev.mesh)
  \/ Is("Mark") /\ Mark(Ev.entry, Ev.n, Ev.ok, Ev.array)
  \/ Is("Build") /\ Build(Ev.form)
  \/ Is("AddAll") /\ AddAll(Ev.place)
  \/ Is("AddOn") /\ AddOn(Ev.place, Ev.list, Ev.ok)
  \/ Is("Reselect") /\ Reselect(Ev.list, Ev.ok)
  \/ Is("Essential") /\ Essential(Ev.entry, Ev.ok, Ev.dofs)
  \/ Is("Eval") /\ Eval(Ev.visits, Ev.rows, Ev.value)
  \/ Is("End") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
