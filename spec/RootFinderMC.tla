---------------------------- MODULE RootFinderMC ----------------------------
(* Exhaustive instance: points are integers, function values -2..2 or NaN.  *)
EXTENDS RootFinder, Integers
VARIABLE out
NN == 99
Num(f) == f # NN
MNeg(f) == Num(f) /\ f < 0
MNonNeg(f) == Num(f) /\ f >= 0
MNonPos(f) == Num(f) /\ f <= 0
Abs(x) == IF x < 0 THEN -x ELSE x
MSmall(f, t) == Num(f) /\ Abs(f) <= t
MNarrow(x, z, t) == Abs(x - z) <= t
MMid(x, y, z) == z = (x + y) \div 2
MSmaller(f, g) == Num(f) /\ Num(g) /\ Abs(f) < Abs(g)
MSec(o, n, x) == IF ~Num(o[2]) \/ ~Num(n[2]) \/ o[2] = n[2] THEN x = NN
                 ELSE LET w == n[1] - (n[2] * (n[1] - o[1])) \div (n[2] - o[2]) IN
                      x = IF Abs(w) > 20 THEN NN ELSE w
MNaN(f) == f = NN
MSame(a, b) == a = b
Vals == {-2, -1, 0, 1, 2, NN}
Pts == -20..20 \cup {NN}
MCInit == Init /\ out = [k |-> "none"]
MCBegin == /\ out.k = "none" /\ \E k \in {"bisection", "secant"}, m \in 0..3, t \in 0..1 :
                Begin([kind |-> k, maxit |-> m, ftol |-> t, xtol |-> 1, x1 |-> 0, x2 |-> 8])
           /\ UNCHANGED out
\* a function: the same value at the same point
MCEval == /\ ph # "idle"
          /\ \E x \in IF ph = "ends" THEN {0, 8} ELSE Pts, f \in Vals :
               /\ \A i \in 1..Len(ev) : ev[i][1] = x => ev[i][2] = f
               /\ x = NN => f = NN
               /\ Eval(x, f)
          /\ UNCHANGED out
MCFound == \E i \in 1..Len(ev) : Found(ev[i][1]) /\ out' = [k |-> "found", e |-> ev[i]]
MCFailed == Failed /\ out' = [k |-> "failed"]
MCNext == MCBegin \/ MCEval \/ MCFound \/ MCFailed
mv == <<vars, out>>
MCSpec == MCInit /\ [][MCNext]_mv /\ WF_mv(MCNext)
BracketChangesSign == br # <<>> /\ ph = "go" => SignChange(br[1][2], br[2][2])
Inside == q # <<>> /\ q.kind = "bisection" => \A i \in 1..Len(ev) : ev[i][1] \in 0..8
Truthful == out.k = "found" => ~NaN(out.e[2])
Bounded == q # <<>> => Len(ev) <= q.maxit + 3
Ends == <>(out.k # "none")
=============================================================================
