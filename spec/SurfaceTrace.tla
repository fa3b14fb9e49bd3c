---------------------------- MODULE SurfaceTrace ----------------------------
EXTENDS Surface, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Right(d, m, els) == LET s == DMax(I(1), Length(els[1])) IN
  /\ DIsFinite(d) /\ DLe(d, m ++ (DDec("1e-11") ** s))
  /\ DLe(m -- (IF Len(els[1]) = 2 THEN DDec("1e-11") ** s ELSE Slack(els) ++ (DDec("1e-7") ** m)), d)
Init == l = 1 /\ shape = << >>
Next ==
  \/ Is("Reset") /\ Lose
  \/ Is("Surface") /\ Make(Ev.els)
  \/ Is("Distance") /\ Ask /\ Ev.threw = FALSE /\ Right(Ev.d, Distance(shape, Ev.x), shape)
  \/ Is("Element") /\ Ask /\ Ev.threw = FALSE /\ Right(Ev.d, FromElement(shape[Ev.e], Ev.x), <<shape[Ev.e]>>)
  \/ Is("Moved") /\ UNCHANGED shape
  \/ Is("Refused") /\ Ev.miso = TRUE /\ UNCHANGED shape     \* only plane curves are supported
  \/ Is("End") /\ UNCHANGED shape
TSpec == Init /\ [][Next]_<<l, shape>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
