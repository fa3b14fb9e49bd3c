------------------------------ MODULE DiagMass ------------------------------
\* The diagonal (lumped) mass matrix integrator: one integrator and one result
\* matrix used for a sequence of elements of any kind and size.
\*   integ  number of components and whether entries are divided by
\*          det(J)^(1/dim) (local time steps)
\*   total  sum of all entries assembled since the last Total
\* The matrix is recorded as its size and its entries different from zero.
EXTENDS Integers, Sequences

CONSTANTS
  Mul(_, _), Add(_, _), Sub(_, _), Div(_, _),   \* numbers
  Sqrt(_), Root(_, _),                          \* square root, d-th root
  Zero, Positive(_), RefVolume(_), Near(_, _)

VARIABLES integ, total
vars == <<integ, total>>
Init == integ = [ns |-> 1, vary |-> FALSE] /\ total = Zero

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN Zero ELSE Add(SumTo(s, k - 1), s[k])
Sum(s) == SumTo(s, Len(s))
Dot(x, y) == Sum([i \in 1..Len(x) |-> Mul(x[i], y[i])])
\* determinant of a square matrix of size 1..3 (rows)
Det(A) ==
  CASE Len(A) = 1 -> A[1][1]
    [] Len(A) = 2 -> Sub(Mul(A[1][1], A[2][2]), Mul(A[1][2], A[2][1]))
    [] Len(A) = 3 -> Add(Sub(Mul(A[1][1], Sub(Mul(A[2][2], A[3][3]), Mul(A[2][3], A[3][2]))),
                             Mul(A[1][2], Sub(Mul(A[2][1], A[3][3]), Mul(A[2][3], A[3][1])))),
                         Mul(A[1][3], Sub(Mul(A[2][1], A[3][2]), Mul(A[2][2], A[3][1]))))
Gram(J) == LET col(k) == [r \in 1..Len(J) |-> J[r][k]] IN
           [a \in 1..Len(J[1]) |-> [b \in 1..Len(J[1]) |-> Dot(col(a), col(b))]]
\* ratio of volumes of a mapping with Jacobian J (space dimension x dimension)
Measure(J) == IF Len(J) = Len(J[1]) THEN Det(J) ELSE Sqrt(Det(Gram(J)))
Entry(g, dim, w, J) == LET m == Measure(J) IN IF g.vary THEN Div(Mul(w, m), Root(m, dim)) ELSE Mul(w, m)

Make(ns, vary) == integ' = [ns |-> ns, vary |-> vary] /\ UNCHANGED total
\* w: weights of the nodes, J: Jacobians there; size: of the matrix; ent: <<row, column, value>>
Assemble(dim, w, J, size, ent) ==
  LET n == Len(w)  N == n * integ.ns IN
  /\ \A i \in 1..n : Positive(w[i])
  /\ Near(Sum(w), RefVolume(dim))
  /\ size = <<N, N>>
  /\ Len(ent) = N
  /\ \A c \in 1..N : ent[c][1] = c /\ ent[c][2] = c
  /\ \A i \in 1..n : LET m == Entry(integ, dim, w[i], J[i]) IN
       \A k \in 0..(integ.ns - 1) : Positive(ent[i + k * n][3]) /\ Near(ent[i + k * n][3], m)
  /\ total' = Add(total, Sum([c \in 1..N |-> ent[c][3]]))
  /\ UNCHANGED integ
\* the form assembled over the mesh, applied to ones from both sides
Total(t) == Near(t, total) /\ total' = Zero /\ UNCHANGED integ
=============================================================================
