-------------------------------- MODULE SbpMC -------------------------------
\* Integer instance: the degree-1 segment with nodes 0, 2, 1 on [0, 2], norm
\* and operator scaled by 6; every history of buffer operations with small
\* integer data, and the algebra of the physical-space entries.
EXTENDS Sbp, FiniteSets, TLC
VARIABLES k, last
mv == <<vars, k, last>>
IAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
ISub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
IMul(x, y) == [i \in 1..Len(x) |-> x[i] * y[i]]
IDiv(x, y) == [i \in 1..Len(x) |-> x[i] \div y[i]]
IScale(s, x) == [i \in 1..Len(x) |-> s * x[i]]
IDot(x, y) == LET f[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE f[i - 1] + x[i] * y[i] IN f[Len(x)]
IMV(A, x) == [i \in 1..Len(A) |-> IDot(A[i], x)]
IMTV(A, x) == [j \in 1..Len(x) |-> LET f[i \in 0..Len(A)] == IF i = 0 THEN 0 ELSE f[i - 1] + A[i][j] * x[i] IN f[Len(A)]]
INum(i) == i
IRat(p, q) == p \div q
INear(x, y, s) == x = y
IPos(x) == x > 0
ISame(x, y) == x = y
S1 == [dim |-> 1, p |-> 1, pts |-> <<<<0, 2, 1>>>>, H |-> <<4, 4, 16>>, w |-> <<4, 4, 16>>, P |-> <<>>,
       Q |-> <<<<<<-6, -2, 8>>, <<2, 6, -8>>, <<-8, 8, 0>>>>>>]
MCInit == el = S1 /\ buf = <<<<0, 0, 0>>>> /\ seen = {} /\ k = 0 /\ last = <<>>
Data == {<<1, 0, 0>>, <<0, 2, -1>>, <<2, 2, 2>>}
MCWeak(tr, u) ==
  /\ Weak(1, tr, <<u>>, <<IF tr THEN ISub(buf[1], IMTV(S1.Q[1], u)) ELSE IAdd(buf[1], IMV(S1.Q[1], u))>>)
  /\ last' = <<"weak", tr, u, buf[1]>>
MCNorm(u) == Norm(<<u>>, <<IMul(S1.H, u)>>) /\ last' = <<"norm", FALSE, u, buf[1]>>
MCInv == /\ \A i \in 1..3 : buf[1][i] % S1.H[i] = 0
         /\ NormInv(buf, <<IDiv(buf[1], S1.H)>>) /\ last' = <<"inv", FALSE, <<>>, buf[1]>>
MCStep ==
  /\ k < 4 /\ k' = k + 1
  /\ \/ \E u \in Data, tr \in BOOLEAN : MCWeak(tr, u)
     \/ \E u \in Data : MCNorm(u)
     \/ MCInv
MCSpec == MCInit /\ [][MCStep]_mv
\* the axioms: derivatives (of degree 2 even) and boundary operator
DerivExact == \A a \in Exps(1, 2) : IMV(S1.Q[1], Mono(S1, a)) = IMul(S1.H, Deriv(S1, a, 1))
Boundary == \A u, v \in Data : IDot(u, IMV(S1.Q[1], v)) + IDot(v, IMV(S1.Q[1], u)) = 12 * (u[2] * v[2] - u[1] * v[1])
\* accumulation: undoing gives the old buffer back
Undo == last # <<>> /\ last[1] = "weak" =>
          (IF last[2] THEN IAdd(buf[1], IMTV(S1.Q[1], last[3])) ELSE ISub(buf[1], IMV(S1.Q[1], last[3]))) = last[4]
UndoInv == last # <<>> /\ last[1] = "inv" => IMul(S1.H, buf[1]) = last[4]
\* the entries: S is skew whatever the mapping, and on a constant mapping the
\* rows of E/2-completed Q sum to zero (constants are differentiated exactly)
Adj == {<<<<a>>>> : a \in -1..2}
Skew == \A i, j \in 1..3, A, B \in Adj : SkewDiff(1, i, j, A, B) = IScale(-1, SkewDiff(1, j, i, B, A))
RowSum == \A i \in 1..3, A \in Adj : LET f[j \in 0..3] == IF j = 0 THEN 0 ELSE f[j - 1] + (IF i = j THEN 2 * Sym(1, i, A) ELSE SkewDiff(1, i, j, A, A)[1]) IN f[3] = 0
=============================================================================
