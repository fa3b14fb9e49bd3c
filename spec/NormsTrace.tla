----------------------------- MODULE NormsTrace -----------------------------
EXTENDS Norms, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Signed(r, p) == IF DLt(r, Zero) THEN DNeg(DPow(DNeg(r), p)) ELSE DPow(r, p)
\* slack for rounding: relative to the sum of absolute terms (weights may have both signs)
Slack(Q, c, p) == LET A == [i \in 1..Len(Q) |-> <<DAbs(Q[i][1]), Q[i][2], Q[i][3]>>] IN
  DAdd(DMul(DDec("1e-11"), Sum(A, c, p)), DMul(VSum([i \in 1..Len(Q) |-> A[i][1]]), DPow(DDec("1e-13"), p)))
IsNorm(r, Q, c, p) ==
  /\ DIsFinite(r)
  /\ IF p = "inf" THEN DClose(r, Norm(Q, c, p), DDec("1e-12"), DDec("1e-13"))
     ELSE DLe(DAbs(DSub(Signed(r, p), Sum(Q, c, p))), Slack(Q, c, p))
TInit == l = 1
TNext ==
  \/ Is("Reset") \/ Is("Make") \/ Is("Solver") \/ Is("Distribute") \/ Is("Poke") \/ Is("SetState") \/ Is("Project")
  \/ Is("Norm") /\ Ev.agree = TRUE /\ Ev.kept = TRUE /\ IsNorm(Ev.r, Ev.points, Ev.entry, Ev.p)
  \/ Is("StateError") /\ Ev.agree = TRUE
     /\ CASE Ev.form \in {"fun", "coef"} -> Ev.err = "" /\ IsNorm(Ev.r, Ev.points, IF Ev.vector THEN 0 ELSE 1, DInt(2))
          [] Ev.form = "size" -> Ev.err = "MISOException"
          [] OTHER -> Ev.err = "" /\ DClose(Ev.r, VNorm(VSub(Ev.given, Ev.t)), DDec("1e-12"), Zero)
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
