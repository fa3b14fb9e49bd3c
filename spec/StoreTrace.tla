----------------------------- MODULE StoreTrace -----------------------------
(* Events recorded from the real loggers.  Values are [time, vec] with exact *)
(* IEEE bits.                                                                *)
EXTENDS Store, Json, IEEE
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
EvKey == <<Ev.fmt, Ev.field, Ev.step, Ev.rank>>
TInit == Init /\ l = 1
TReset == Is("Reset") /\ store' = <<>>
TSave == Is("Save") /\ Ev.err = "" /\ Save(EvKey, [time |-> Ev.time, vec |-> Ev.vec])
SameV(x, y) == DSame(x.time, y.time) /\ VSame(x.vec, y.vec)
TRead ==
  /\ Is("Read")
  /\ UNCHANGED store
  /\ IF EvKey \in DOMAIN store
     THEN Ev.err = "" /\ SameV(store[EvKey], [time |-> Ev.time, vec |-> Ev.vec])
     ELSE Ev.err # "" \/ Ev.vec = <<>>    \* never another key's data
TRestart == Is("Restart") /\ Restart
\* a save leaves its argument alone
TKept == Is("Kept") /\ Ev.same /\ UNCHANGED store
TNext == TReset \/ TSave \/ TRead \/ TRestart \/ TKept
TSpec == TInit /\ [][TNext]_<<store, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
