---------------------------- MODULE LineSearchMC ----------------------------
(* Exhaustive instance: integer steps, an adversary chooses every merit     *)
(* value, NaN included (99: compares false with everything).                *)
EXTENDS LineSearch
NaN == 99
Phi0 == 4
MCArmijo(q, a, f) == f # NaN /\ f <= Phi0 - (IF a >= 4 THEN 1 ELSE 0)
MCSuff(q, h) == MCArmijo(q, h[Len(h)][1], h[Len(h)][2])
MCSafe(q, a, b) == b > 0 /\ b * 2 >= a /\ b * 8 <= a * 7 /\ b < a
MCInterp(q, h, b) == TRUE
Values == {0, 3, 4, 5, NaN}
MCInit == Init
MCStart == hist = <<>> /\ \E m \in 0..3 : Start([alpha |-> 16, maxit |-> m])
MCEval == \E a \in 1..16, f \in Values : Eval(a, f)
MCReturn == \E r \in 0..16 : Return(r)
MCNext == MCStart \/ MCEval \/ MCReturn
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Done == st = "idle" /\ hist # <<>>
StepIsSound == Done /\ res # Zero => MCArmijo(p, res, Last[2]) /\ res = Last[1]
GiveUpIsJustified == Done /\ res = Zero =>
   Len(hist) = p.maxit + 1 /\ \A i \in 1..Len(hist) : ~MCArmijo(p, hist[i][1], hist[i][2])
NeverNaN == Done /\ res # Zero => Last[2] # NaN
Bounded == Len(hist) <= IF p = <<>> THEN 0 ELSE p.maxit + 1
Shrinks == \A i \in 2..Len(hist) : hist[i][1] < hist[i-1][1] /\ hist[i][1] > 0
StopsAtFirst == \A i \in 1..Len(hist) - 1 : ~MCArmijo(p, hist[i][1], hist[i][2])
Terminates == <>Done
=============================================================================
