------------------------------- MODULE NewtonMC -----------------------------
(* Exhaustive instance.  A residual is its norm, 0..6 or NaN = 9; states    *)
(* are integers; the adversary chooses every residual.  acc records the     *)
(* norms of the accepted states, so the invariants speak of whole solves.   *)
EXTENDS Newton
VARIABLES acc, outc
mv == <<all, acc, outc>>
NaN == 9
MNorm(f) == f
MRhs(d, f) == f
MAt(a, s, b, w) == w = a + s
MStepOf(a, b, w) == w - a
MSame(a, b) == a = b
MGoal(d, m) == d.goal
MStop(m, g) == m # NaN /\ m <= g
MSlope(a, b, m) == 0
MFin(m) == m # NaN
MSuff(d, h) == h[Len(h)][2] # NaN /\ h[Len(h)][2] < d.phi0
MSafe(d, a, b) == b >= 1 /\ b * 2 >= a /\ b * 8 <= a * 7
MInterp(d, h, b) == TRUE
Kinds == {"relaxed", "inexact"}
MCInit == NInit /\ acc = <<>> /\ outc = "none"
NoteAcc == acc' = IF Taken THEN Append(acc, Norm(ry)) ELSE acc
MCBegin == outc = "none" /\ (\E k \in Kinds, m \in 0..2 : NBegin([kind |-> k, maxit |-> m, goal |-> 1], 0)) /\ UNCHANGED <<acc, outc>>
MCFirst == (\E f \in 0..4 \cup {NaN} : FirstRes(x, f) /\ acc' = <<f>>) /\ UNCHANGED outc
MCJac == Jacobian(CurX) /\ NoteAcc /\ UNCHANGED outc
MCSolve == Solve(r, 1, 0, [alpha |-> 4, maxit |-> IF q.kind = "relaxed" THEN 1 ELSE 2, phi0 |-> n]) /\ UNCHANGED <<acc, outc>>
MCTrial == (\E a \in 1..4, f \in 0..5 \cup {NaN} : Trial(x + a, f)) /\ UNCHANGED <<acc, outc>>
MCDone == (\E z \in IF Searched THEN {x, y} ELSE {x}, cv \in BOOLEAN, k \in 0..3, m \in 0..5 \cup {NaN} : Done(z, cv, k, m) /\ outc' = IF cv THEN "conv" ELSE "fail") /\ NoteAcc
MCAbort == Abort /\ outc' = "abort" /\ UNCHANGED acc
MCNext == MCBegin \/ MCFirst \/ MCJac \/ MCSolve \/ MCTrial \/ MCDone \/ MCAbort
MCSpec == MCInit /\ [][MCNext]_mv /\ WF_mv(MCNext)

Truthful == outc = "conv" => acc[Len(acc)] # NaN /\ acc[Len(acc)] <= goal /\ n = acc[Len(acc)]
NotFalseFailure == outc = "fail" => ~(n # NaN /\ n <= goal)
Monotone == \A i \in 2..Len(acc) : acc[i] # NaN /\ (acc[i] < acc[i-1])
Counted == it = IF acc = <<>> THEN 0 ELSE Len(acc) - 1
Limited == q # <<>> => it <= q.maxit
NormIsOfState == acc # <<>> => n = acc[Len(acc)]
Ends == <>(outc # "none")
=============================================================================
