---------------------------- MODULE ProjectorMC ----------------------------
\* A triangle with one boundary node and two interior ones, in exact integer
\* arithmetic: fields are multiples of the determinant, so the potentials are
\* integers. Every short history of moves, notifications and projections.
EXTENDS Projector, Integers, TLC
VARIABLES k, fresh, lastM, lastT
mv == <<vars, k, fresh, lastM, lastT>>
IClose(x, y, s) == x = y
Dot(x, y) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + x[i] * y[i] IN S(Len(x))
IMul(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
Tr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
ITMul(A, x) == IMul(Tr(A), x)
IAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
ISub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
IZero(v) == v[1] = 0
\* edges 1-2, 2-3, 3-1; node 1 on the boundary
G == <<<<-1, 1, 0>>, <<0, -1, 1>>, <<1, 0, -1>>>>
In == {2, 3}
Masses == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 3, 2>>}
WOf(m) == LET GT == Tr(G) IN [i \in 1..3 |-> [j \in 1..3 |-> -(GT[i][j] * m[j])]]
\* (W G) on the interior, and its determinant
A(W) == LET B == [i \in 1..3 |-> [j \in 1..3 |-> Dot(W[i], Tr(G)[j])]] IN <<<<B[2][2], B[2][3]>>, <<B[3][2], B[3][3]>>>>
Det(W) == A(W)[1][1] * A(W)[2][2] - A(W)[1][2] * A(W)[2][1]
Adj(W, r) == LET a == A(W) IN <<0, a[2][2] * r[1] - a[1][2] * r[2], a[1][1] * r[2] - a[2][1] * r[1]>>
AdjT(W, r) == LET a == A(W) IN <<0, a[2][2] * r[1] - a[2][1] * r[2], a[1][1] * r[2] - a[1][2] * r[1]>>
X0 == {<<a, b, c>> : a \in -1..1, b \in 0..1, c \in {-1, 1}}
Scale(s, x) == [i \in 1..Len(x) |-> s * x[i]]
MCInit == Init /\ k = 0 /\ fresh = TRUE /\ lastM = <<>> /\ lastT = <<>>
MCBuild == k = 0 /\ k' = 1 /\ \E kd \in {"irrotational", "divergence-free"}, m \in Masses : Build(kd, G, In, WOf(m)) /\ fresh' = TRUE /\ UNCHANGED <<lastM, lastT>>
MCMove == k > 0 /\ k < 4 /\ k' = k + 1 /\ \E m \in Masses : Move(WOf(m)) /\ fresh' = (used = None \/ WOf(m) = used) /\ lastM' = <<>> /\ lastT' = <<>>
MCNotify == k > 0 /\ k < 4 /\ k' = k + 1 /\ \E c \in BOOLEAN : Notify(c) /\ fresh' = (IF c THEN TRUE ELSE fresh) /\ UNCHANGED <<lastM, lastT>>
MCMult == k > 0 /\ k < 4 /\ k' = k + 1 /\ UNCHANGED fresh /\ UNCHANGED lastT /\ \E x0 \in X0 :
  LET W == Now  x == Scale(Det(W), x0)  r == IMul(W, x0)  psi == Adj(W, <<r[2], r[3]>>)
      y == Part(x, IMul(G, psi)) IN Mult(x, y, psi) /\ lastM' = <<x, y, W>>
MCVjp == k > 0 /\ k < 4 /\ k' = k + 1 /\ UNCHANGED fresh /\ UNCHANGED lastM /\ \E p0 \in X0 :
  LET W == Now  p == Scale(Det(W), p0)  r == ITMul(G, p0)  phi == AdjT(W, <<r[2], r[3]>>)
      z == Part(p, ITMul(W, phi)) IN VjpIn(p, <<1, 2, 3>>, IAdd(<<1, 2, 3>>, z), phi) /\ lastT' = <<p, z, W>>
MCNext == MCBuild \/ MCMove \/ MCNotify \/ MCMult \/ MCVjp
MCSpec == MCInit /\ [][MCNext]_mv
FreshNow == fresh => (Now = mesh)
\* the divergence-free part has no weak divergence, the irrotational part no
\* circulation, and the parts are projections
Div(W, v) == Pick(IMul(W, v), In)
Circ(v) == v[1] + v[2] + v[3]
Parts == lastM # <<>> =>
  LET x == lastM[1]  y == lastM[2]  W == lastM[3] IN
  IF kind = "irrotational" THEN Circ(y) = 0 /\ Div(W, ISub(x, y)) = <<0, 0>>
  ELSE Div(W, y) = <<0, 0>> /\ Circ(ISub(x, y)) = 0
Dual == (lastM # <<>> /\ lastT # <<>> /\ lastM[3] = lastT[3]) => Dot(lastT[1], lastM[2]) = Dot(lastT[2], lastM[1])
=============================================================================
