------------------------------- MODULE Ortho -------------------------------
\* Gauss-Lobatto quadrature and orthonormal polynomials (orthopoly.cpp).
\* The polynomials are written in barycentric coordinates, where they are
\* homogeneous with integer coefficients and need no limit at any vertex:
\*   segment   a = (1-x)/2, b = (1+x)/2
\*   triangle  u = (1+x)/2, v = (1+y)/2, r = 1-u-v
\*   tet       u, v as above, w = (1+z)/2, r = 1-u-v-w
\* Polynomials are values of an algebra given by the constants: elementwise
\* vectors of numbers at points (trace validation) or exact polynomials (MC).
EXTENDS Integers, Sequences

CONSTANTS
  PAdd(_, _), PMul(_, _), PScale(_, _),   \* algebra, scaling by an integer
  POne(_),                                \* one, of the shape of the argument
  Root(_, _, _, _),                       \* (P, p, q, h): P is near sqrt(p/q) * h
  LobattoOk(_, _, _)                      \* (n, x, w)

VARIABLE n
vars == n
Init == n = 0

RECURSIVE Binom(_, _)
Binom(m, k) == IF k < 0 \/ k > m THEN 0 ELSE IF k = 0 \/ k = m THEN 1 ELSE Binom(m - 1, k - 1) + Binom(m - 1, k)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN POne(x) ELSE PMul(x, Pow(x, k - 1))
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
\* the Jacobi polynomial of degree d, homogenised: a + b = 1 on the segment
Hom(d, al, be, a, b) ==
  LET term(s) == PScale((IF s % 2 = 1 THEN -1 ELSE 1) * Binom(d + al, d - s) * Binom(d + be, s), PMul(Pow(a, s), Pow(b, d - s)))
      sum[s \in 0..d] == IF s = 0 THEN term(0) ELSE PAdd(sum[s - 1], term(s))
  IN sum[d]
\* squared norm of the Jacobi polynomial: 2^(al+be+1) NormNum / NormDen
RECURSIVE Prod(_, _)
Prod(a, b) == IF a > b THEN 1 ELSE a * Prod(a + 1, b)        \* a (a+1) ... b
NormNum(d, al, be) == Prod(d + 1, d + al)
NormDen(d, al, be) == (2 * d + al + be + 1) * Prod(d + be + 1, d + al + be)

\* orthonormal on [-1,1] with weight (1-x)^al (1+x)^be
Jacobi(d, al, be, a, b, P) ==
  Root(P, NormDen(d, al, be), NormNum(d, al, be) * IPow(2, al + be + 1), Hom(d, al, be, a, b)) /\ n' = n + 1
\* triangle: squared norms multiply to 2 / ((2i+1) (2i+2j+2)) on the unit
\* simplex scaled by four (area 2 instead of 1/2)
TriPoly(i, j, u, v, r) == PMul(Hom(i, 0, 0, r, u), Hom(j, 2 * i + 1, 0, PAdd(u, r), v))
TriNum(i, j) == (2 * i + 1) * (i + j + 1)
Tri(i, j, u, v, r, P) == Root(P, TriNum(i, j), 2, TriPoly(i, j, u, v, r)) /\ n' = n + 1
TetPoly(i, j, k, u, v, w, r) ==
  PMul(PMul(Hom(i, 0, 0, r, u), Hom(j, 2 * i + 1, 0, PAdd(u, r), v)), Hom(k, 2 * i + 2 * j + 2, 0, PAdd(PAdd(u, r), v), w))
TetNum(i, j, k) == (2 * i + 1) * (i + j + 1) * (2 * i + 2 * j + 2 * k + 3)
Tet(i, j, k, u, v, w, r, P) == Root(P, TetNum(i, j, k), 4, TetPoly(i, j, k, u, v, w, r)) /\ n' = n + 1

\* order of the columns of the Vandermonde matrices
SegIndex(d) == [c \in 1..(d + 1) |-> c - 1]
RECURSIVE TriRows(_)
TriRows(d) == IF d < 0 THEN <<>> ELSE TriRows(d - 1) \o [j \in 1..(d + 1) |-> <<d - (j - 1), j - 1>>]
RECURSIVE TetLayer(_, _)
TetLayer(d, k) == IF k > d THEN <<>> ELSE [j \in 1..(d - k + 1) |-> <<d - k - (j - 1), j - 1, k>>] \o TetLayer(d, k + 1)
RECURSIVE TetRows(_)
TetRows(d) == IF d < 0 THEN <<>> ELSE TetRows(d - 1) \o TetLayer(d, 0)
\* V: the columns
VanderSeg(d, a, b, V) ==
  /\ Len(V) = d + 1
  /\ \A c \in 1..Len(V) : Root(V[c], NormDen(c - 1, 0, 0), 2, Hom(c - 1, 0, 0, a, b))
  /\ n' = n + 1
VanderTri(d, u, v, r, V) ==
  /\ Len(V) = Len(TriRows(d))
  /\ \A c \in 1..Len(V) : LET q == TriRows(d)[c] IN Root(V[c], TriNum(q[1], q[2]), 2, TriPoly(q[1], q[2], u, v, r))
  /\ n' = n + 1
VanderTet(d, u, v, w, r, V) ==
  /\ Len(V) = Len(TetRows(d))
  /\ \A c \in 1..Len(V) : LET q == TetRows(d)[c] IN Root(V[c], TetNum(q[1], q[2], q[3]), 4, TetPoly(q[1], q[2], q[3], u, v, w, r))
  /\ n' = n + 1
Lobatto(k, x, w) == LobattoOk(k, x, w) /\ n' = n + 1
=============================================================================
