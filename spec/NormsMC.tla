------------------------------- MODULE NormsMC -------------------------------
(* Three points, the last on another rank, values of two components.         *)
EXTENDS Norms, TLC
I(n) == IF n >= 0 THEN DInt(n) ELSE DNeg(DInt(0 - n))
CONSTANTS Max
Cs == (0 - Max)..Max
Vs == {<<I(a), I(b)>> : a \in Cs, b \in {0, 3}}
Ws == {I(1), I(2)}
VARIABLES f, g, w
vars == <<f, g, w>>
Init == f = <<I(0), I(0)>> /\ g = f /\ w = <<I(1), I(1), I(2)>>
MCField == \E a \in Vs : f' = a /\ UNCHANGED <<g, w>>
MCFun == \E a \in Vs : g' = a /\ UNCHANGED <<f, w>>
MCWeight == \E a, b \in Ws : w' = <<a, b, I(1)>> /\ UNCHANGED <<f, g>>
Next == MCField \/ MCFun \/ MCWeight
Spec == Init /\ [][Next]_vars
Z == <<I(0), I(0)>>
\* the field is f and its reverse and zero at the points, the function is g, twice g, g
Of(x, y) == << <<w[1], x, y>>, <<w[2], <<x[2], x[1]>>, VScale(I(2), y)>>, <<w[3], Z, y>> >>
Q == Of(f, g)
Ps == {DInt(1), DInt(2), DInt(3), DRat(3, 2), "inf"}
Close(a, b) == DClose(a, b, DDec("1e-13"), DDec("1e-13"))
Le(a, b) == DLe(a, DAdd(b, DDec("1e-12")))
ZeroIff == \A p \in Ps, c \in 0..2 : DEq(Norm(Q, c, p), Zero) <=> \A i \in 1..3 : DEq(Diff(Q[i], c), Zero)
Scales == \A p \in Ps, c \in 0..2 : Close(Norm(Of(VScale(I(-3), f), VScale(I(-3), g)), c, p), DMul(I(3), Norm(Q, c, p)))
\* |f| <= |f - g| + |g|, through the points
Triangle == \A p \in Ps, c \in 0..2 : Le(Norm(Of(f, Z), c, p),
   DAdd(Norm(Q, c, p), Norm([i \in 1..3 |-> <<Q[i][1], Q[i][3], Z>>], c, p)))
Component == \A p \in Ps, c \in 1..2 : Le(Norm(Q, c, p), Norm(Q, 0, p))
Bound == \A c \in 0..2 : \A i \in 1..3 : DLe(Diff(Q[i], c), Norm(Q, c, "inf"))
\* over ranks: the norm of the parts is that of the whole
Ranks == \A p \in Ps, c \in 0..2 : Close(Joined(<<Norm(SubSeq(Q, 1, 2), c, p), Norm(SubSeq(Q, 3, 3), c, p)>>, p), Norm(Q, c, p))
=============================================================================
