------------------------------ MODULE StoreGen ------------------------------
EXTENDS Store, Json
CONSTANT D
VARIABLES hist, done
GInit == Init /\ hist = <<>> /\ done = FALSE
GSave == \E k \in Key, v \in Values : Save(k, v) /\ hist' = Append(hist, [op |-> "Save", key |-> k, v |-> v])
GRead == \E k \in Key : UNCHANGED store /\ hist' = Append(hist, [op |-> "Read", key |-> k, v |-> ""])
GRestart == Restart /\ hist' = Append(hist, [op |-> "Restart", key |-> <<>>, v |-> ""])
GNext == \/ Len(hist) < D /\ (GSave \/ GRead \/ GRestart) /\ UNCHANGED done
         \/ Len(hist) = D /\ ~done /\ done' = TRUE /\ UNCHANGED <<store, hist>>
GSpec == GInit /\ [][GNext]_<<store, hist, done>>
Emit == done => PrintT("SCN" \o ToJson(hist))
=============================================================================
