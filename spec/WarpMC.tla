------------------------------ MODULE WarpMC ------------------------------
\* Over the integers modulo a prime, four triangles around one inner node of
\* a square: the rest shape, moved rigidly or stretched linearly with its
\* surface, has no residual; K is symmetric; where K determines the inner
\* node, the solution is unique (so linear maps of the surface carry over);
\* forward and backward derivatives are transposes; what is given stays given.
EXTENDS Warp, Integers, TLC
CONSTANT Q
VARIABLE last
F == 0..(Q - 1)
FPlus(a, b) == (a + b) % Q
FTimes(a, b) == (a * b) % Q
FMinus(a) == (Q - a) % Q
Inv == [a \in F |-> IF a = 0 THEN 0 ELSE CHOOSE b \in F : (a * b) % Q = 1]
FRecip(a) == Inv[a]
FNum(i) == i % Q
Eager(x) == TLCEval(x)
B == <<<<FMinus(1), 1, 0>>, <<FMinus(1), 0, 1>>>>
Tri(a, b) == [n |-> <<<<2 * a - 1, 2 * b - 1, 9>>, <<2 * a, 2 * b, 10>>>>, g |-> <<B>>, w |-> <<FRecip(2)>>]
FVPlus(a, b) == [i \in 1..Len(a) |-> FPlus(a[i], b[i])]
FVTimes(a, v) == [i \in 1..Len(v) |-> FTimes(a, v[i])]
D(a, b) == Total(LAMBDA i : FTimes(a[i], b[i]), Len(a))
Els == <<Tri(1, 2), Tri(2, 3), Tri(3, 4), Tri(4, 1)>>
S == <<1, 2, 3, 4, 5, 6, 7, 8>>
Shape(a, b) == <<0, 0, 2, 0, 2, 2, 0, 2, a, b>>
Good(X) == \A e \in 1..4 : Det([i \in 1..2 |-> [j \in 1..2 |-> D(At(X, Els[e].n)[i], B[j])]]) # 0
V == {<<0, 0>>, <<1, 2>>}
Dirs == {[i \in 1..10 |-> IF i = k THEN 1 ELSE 0] : k \in {4, 9}} \cup {<<1, 0, 2, 3, 1, 1, 0, 2, 2, 1>>}
MCInit == Init /\ last = <<>>
MCBuild == ~Has /\ \E a, b \in F : Build(2, Els, Shape(a, b), S) /\ last' = <<"build", op'.X>>
MCMove == Has /\ \E a, b \in {1, 3} : Call([mesh_coords |-> Shape(a, b)]) /\ last' = <<"move", Shape(a, b)>>
MCLin == Has /\ Linearize([state |-> op.X]) /\ last' = <<"lin", op.X>>
MCNext == MCBuild \/ MCMove \/ MCLin
MCSpec == MCInit /\ [][MCNext]_<<op, last>>
Kept == Has => /\ op.X = last[2] /\ (last[1] = "lin" => op.at = op.X)
K(d) == TLCEval(Stiff(op, op.X, d))
Map(A, t, X) == [i \in 1..10 |-> LET k == (i + 1) \div 2  x == X[2 * k - 1]  y == X[2 * k]  c == 2 - (i % 2)
                                 IN FPlus(FPlus(FTimes(A[c][1], x), FTimes(A[c][2], y)), t[c])]
Ok == Has /\ last[1] = "build" /\ Good(op.X)
Linear == Ok => \A A \in {<<<<0, 1>>, <<4, 0>>>>, <<<<2, 1>>, <<3, 1>>>>} : \A t \in V :
            LET x == Map(A, t, op.X)  r == Rows(op, x, [i \in 1..8 |-> x[S[i]]], K(Diff(x, op.X)))
            IN r = [i \in 1..10 |-> 0]
Symmetric == Ok => \A a, b \in Dirs : D(K(a), b) = D(a, K(b))
Rigid == Ok => \A t \in V : K([i \in 1..10 |-> t[2 - (i % 2)]]) = [i \in 1..10 |-> 0]
Transposed == Ok => \A a, b \in Dirs : D(b, Forward(op, a, K(a))) = D(a, Backward(op, b, K(Inside(op, b))))
U9 == [i \in 1..10 |-> IF i = 9 THEN 1 ELSE 0]
U10 == [i \in 1..10 |-> IF i = 10 THEN 1 ELSE 0]
\* the inner block is invertible: only zero has no residual
Unique == Ok => LET k9 == K(U9)  k10 == K(U10)  det == FPlus(FTimes(k9[9], k10[10]), FMinus(FTimes(k9[10], k10[9]))) IN
          det # 0 => \A a, b \in F : LET d == [i \in 1..10 |-> IF i = 9 THEN a ELSE IF i = 10 THEN b ELSE 0]  r == K(d)
                     IN (r[9] = 0 /\ r[10] = 0) => (a = 0 /\ b = 0)
=============================================================================
