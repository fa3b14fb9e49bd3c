-------------------------------- MODULE Sbp --------------------------------
\* Diagonal-norm summation-by-parts elements (sbp_fe.cpp) on the reference
\* simplex of dimension d with vertices 0, e_1, ..., e_d.
\*  el    the element: dim, degree p, node coordinates pts[c][i], norm H,
\*        weights w, weak operators Q[c] (row i, column j), projection P
\*  buf   the matrix (states x nodes) that the operator applications share
\*  seen  the elements already examined
\* Axioms says what an element must satisfy; every other query is a function
\* of el, and the applications transform buf.
EXTENDS Integers, Sequences

CONSTANTS
  VAdd2(_, _), VSub2(_, _), VMul2(_, _), VDiv2(_, _), VScale2(_, _),  \* vectors of numbers
  Dot(_, _), MV(_, _), MTV(_, _), Num(_), Rat(_, _),
  NearV(_, _, _),            \* (x, y, scale) vectors agree up to rounding
  Pos(_), SameV(_, _)

VARIABLES el, buf, seen
vars == <<el, buf, seen>>
Init == el = <<>> /\ buf = <<>> /\ seen = {}

N == Len(el.H)
Ones(k) == [i \in 1..k |-> Num(1)]
Row(A, i) == A[i]
Col(A, j) == [i \in 1..Len(A) |-> A[i][j]]

(* polynomials ---------------------------------------------------------- *)
RECURSIVE PowV(_, _, _)
PowV(x, k, n) == IF k = 0 THEN Ones(n) ELSE VMul2(x, PowV(x, k - 1, n))
Exps(d, p) == {a \in [1..d -> 0..p] : LET s[c \in 0..d] == IF c = 0 THEN 0 ELSE s[c - 1] + a[c] IN s[d] <= p}
Mono(e, a) == LET f[c \in 0..e.dim] == IF c = 0 THEN Ones(Len(e.H)) ELSE VMul2(f[c - 1], PowV(e.pts[c], a[c], Len(e.H))) IN f[e.dim]
Deriv(e, a, c) == IF a[c] = 0 THEN VScale2(Num(0), Mono(e, [a EXCEPT ![c] = 0]))
                  ELSE VScale2(Num(a[c]), Mono(e, [a EXCEPT ![c] = @ - 1]))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
\* integral of the monomial over the reference simplex, as a rational
IntNum(a, d) == LET f[c \in 0..d] == IF c = 0 THEN 1 ELSE f[c - 1] * Fact(a[c]) IN f[d]
IntDen(a, d) == LET s[c \in 0..d] == IF c = 0 THEN 0 ELSE s[c - 1] + a[c] IN Fact(s[d] + d)
Integral(a, d) == Rat(IntNum(a, d), IntDen(a, d))
PlusE(a, b) == [c \in DOMAIN a |-> a[c] + b[c]]
\* boundary integral of the monomial times the c-th normal component
Bdry(a, d, c) == IF a[c] = 0 THEN Rat(0, 1) ELSE LET b == [a EXCEPT ![c] = @ - 1] IN Rat(a[c] * IntNum(b, d), IntDen(b, d))

NPoly(d, p) == IF d = 1 THEN p + 1 ELSE IF d = 2 THEN ((p + 1) * (p + 2)) \div 2 ELSE ((p + 1) * (p + 2) * (p + 3)) \div 6
\* the projection removes polynomials of degree p and nothing else: it is
\* idempotent, orthogonal in the norm and of the complementary rank
ProjAxioms(e, P) ==
  /\ \A a \in Exps(e.dim, e.p) : NearV(MV(P, Mono(e, a)), VScale2(Num(0), e.H), Num(1))
  /\ \A i \in 1..Len(e.H) : NearV(VScale2(e.H[i], P[i]), VMul2(e.H, Col(P, i)), Num(1))
  /\ \A i \in 1..Len(e.H) : NearV(MTV(P, P[i]), P[i], Num(1))
  /\ NearV(<<Dot(Ones(Len(e.H)), [i \in 1..Len(e.H) |-> P[i][i]])>>, <<Num(Len(e.H) - NPoly(e.dim, e.p))>>, Num(1))
Max2(a, b) == IF a > b THEN a ELSE b
Axioms(e) ==
  /\ \A i \in 1..Len(e.H) : Pos(e.H[i])                                              \* a norm
  /\ SameV(e.H, e.w)                                                                 \* used as the quadrature
  /\ \A a \in Exps(e.dim, Max2(2 * e.p - 1, 0)) :                                     \* exact to degree 2p-1
       NearV(<<Dot(e.H, Mono(e, a))>>, <<Integral(a, e.dim)>>, Num(1))
  /\ \A a \in Exps(e.dim, e.p), c \in 1..e.dim :                                      \* derivatives exact to degree p
       NearV(MV(e.Q[c], Mono(e, a)), VMul2(e.H, Deriv(e, a, c)), Num(1))
  /\ \A b \in Exps(e.dim, e.p), c \in 1..e.dim :                                      \* Q + Q' is the boundary operator
       LET m == Mono(e, b)  q == VAdd2(MV(e.Q[c], m), MTV(e.Q[c], m)) IN
       \A a \in Exps(e.dim, e.p) : NearV(<<Dot(Mono(e, a), q)>>, <<Bdry(PlusE(a, b), e.dim, c)>>, Num(1))
  /\ ProjAxioms(e, e.P)

\* what was examined before must come out the same again
Element(e) ==
  /\ e \in seen \/ Axioms(e)
  /\ el' = e /\ buf' = <<>> /\ seen' = seen \cup {e}

(* the operators as matrices --------------------------------------------- *)
StrongRow(c, i) == VDiv2(Row(el.Q[c], i), [j \in 1..N |-> el.H[i]])
Near1(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : NearV(A[i], B[i], Num(1))
Transp(A) == [j \in 1..Len(A[1]) |-> Col(A, j)]
Strong(c) == [i \in 1..N |-> StrongRow(c, i)]
StrongMat(c, tr, D) == Near1(D, IF tr THEN Transp(Strong(c)) ELSE Strong(c)) /\ UNCHANGED vars
WeakMat(c, tr, A) == Near1(A, IF tr THEN Transp(el.Q[c]) ELSE el.Q[c]) /\ UNCHANGED vars
StrongRowQ(c, i, r) == NearV(r, StrongRow(c, i), Num(1)) /\ UNCHANGED vars
ProjMat(P) == Near1(P, el.P) /\ UNCHANGED vars

(* applications to the shared buffer -------------------------------------- *)
Buffer(B) == buf' = B /\ UNCHANGED <<el, seen>>
Map(u, f(_)) == [s \in 1..Len(u) |-> f(u[s])]
NearB(B, C) == Len(B) = Len(C) /\ \A s \in 1..Len(B) : NearV(B[s], C[s], Num(1))
Becomes(B, C) == NearB(B, C) /\ buf' = B /\ UNCHANGED <<el, seen>>
Norm(u, B) == Becomes(B, Map(u, LAMBDA r : VMul2(el.H, r)))
NormInv(u, B) == Becomes(B, Map(u, LAMBDA r : VDiv2(r, el.H)))
Weak(c, tr, u, B) ==
  Becomes(B, [s \in 1..Len(u) |-> IF tr THEN VSub2(buf[s], MTV(el.Q[c], u[s])) ELSE VAdd2(buf[s], MV(el.Q[c], u[s]))])
Proj(tr, u, B) == Becomes(B, Map(u, LAMBDA r : IF tr THEN MTV(el.P, r) ELSE MV(el.P, r)))
WeakNode(c, i, u, r) == NearV(r, [s \in 1..Len(u) |-> Dot(el.Q[c][i], u[s])], Num(1)) /\ UNCHANGED vars
StrongNode(c, i, u, r) == NearV(r, [s \in 1..Len(u) |-> Dot(StrongRow(c, i), u[s])], Num(1)) /\ UNCHANGED vars

(* entries mapped to physical space: adjugate A[k][c] of the mapping at i, j *)
QCol(i, j) == [k \in 1..el.dim |-> el.Q[k][i][j]]
Sym(c, i, Ai) == Dot(Col(Ai, c), QCol(i, i))
\* the boundary matrix Q + Q^T of the mean mapping: not diagonal for every element
MeanBdry(c, i, j, Ai, Aj) == <<Dot(VAdd2(Col(Ai, c), Col(Aj, c)), VAdd2(QCol(i, j), QCol(j, i)))>>
SkewDiff(c, i, j, Ai, Aj) == VSub2(<<Dot(Col(Ai, c), QCol(i, j))>>, <<Dot(Col(Aj, c), QCol(j, i))>>)
Entries(c, i, j, Ai, Aj, q, sym, skew, phys) ==
  /\ SameV(<<q>>, <<el.Q[c][i][j]>>)
  /\ NearV(<<sym>>, <<Sym(c, i, Ai)>>, Num(1))
  /\ NearV(<<skew>>, SkewDiff(c, i, j, Ai, Aj), Num(1))
  /\ NearV(<<phys>>, IF i = j THEN <<Sym(c, i, Ai)>> ELSE VAdd2(VScale2(Rat(1, 2), SkewDiff(c, i, j, Ai, Aj)), VScale2(Rat(1, 4), MeanBdry(c, i, j, Ai, Aj))), Num(1))
  /\ UNCHANGED vars
\* reverse sweep of the skew entry: accumulates
SkewRev(c, i, j, s, bi, bj, ai, aj) ==
  /\ Len(ai) = el.dim /\ Len(aj) = el.dim
  /\ \A k \in 1..el.dim : \A m \in 1..Len(bi[k]) :
       IF m # c THEN SameV(<<ai[k][m], aj[k][m]>>, <<bi[k][m], bj[k][m]>>)
       ELSE /\ NearV(<<ai[k][m]>>, VAdd2(<<bi[k][m]>>, VScale2(s, <<el.Q[k][i][j]>>)), Num(1))
            /\ NearV(<<aj[k][m]>>, VSub2(<<bj[k][m]>>, VScale2(s, <<el.Q[k][j][i]>>)), Num(1))
  /\ UNCHANGED vars

(* points ----------------------------------------------------------------- *)
Unit(i) == [j \in 1..N |-> IF i = j THEN Num(1) ELSE Num(0)]
MonoAt(x, a) == LET pt == [dim |-> el.dim, H |-> <<Num(1)>>, pts |-> [c \in 1..el.dim |-> <<x[c]>>]] IN Mono(pt, a)
\* node = 0: not a node of the element
Shape(node, x, sh) ==
  /\ IF node > 0 THEN SameV(sh, Unit(node))
     ELSE /\ \A a \in Exps(el.dim, el.p) : NearV(<<Dot(sh, Mono(el, a))>>, MonoAt(x, a), Num(1))   \* interpolates
          /\ NearV(MTV(el.P, sh), VScale2(Num(0), sh), Num(1))                                    \* by projection
  /\ UNCHANGED vars
DShape(node, ds, err) ==
  /\ IF node = 0 THEN err
     ELSE ~err /\ \A c \in 1..el.dim : NearV(Col(ds, c), StrongRow(c, node), Num(1))
  /\ UNCHANGED vars
Index(node, r, err) == (IF node = 0 THEN err ELSE ~err /\ r = node) /\ UNCHANGED vars
Coords(c, x) == SameV(x, el.pts[c]) /\ UNCHANGED vars

\* a finite-element space on a mesh: nodes (position, degree of freedom) of
\* the elements and of the boundary elements; continuous spaces share the
\* degree of freedom exactly between nodes at the same point, others never
Mesh(cont, nodes, bdr) ==
  /\ \A i, j \in 1..Len(nodes) : i < j =>
       (nodes[i].dof = nodes[j].dof <=> (cont /\ NearV(nodes[i].x, nodes[j].x, Num(1))))
  /\ \A i \in 1..Len(bdr), j \in 1..Len(nodes) :
       (bdr[i].dof = nodes[j].dof <=> NearV(bdr[i].x, nodes[j].x, Num(1)))
  /\ UNCHANGED vars
=============================================================================
