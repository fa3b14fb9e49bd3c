----------------------------- MODULE SurfaceMC -----------------------------
\* The closed form for straight elements, on an integer grid and in integers:
\* the squared distance is a fraction.  It is a lower bound of the distance to
\* every point of the surface, it is attained at a node or a foot, it does not
\* change when an element is cut in two or turned round, and the element that
\* holds the nearest node need not be the nearest element.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N
VARIABLES line, x
P == (0..N) \X (0..N)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sq(a) == Dot(a, a)
Frac(n, d) == <<n, d>>
Le(f, g) == f[1] * g[2] <= g[1] * f[2]
Eq(f, g) == f[1] * g[2] = g[1] * f[2]
El(a, b, y) == LET u == Sub(b, a) s == Dot(Sub(y, a), u) IN
  IF s <= 0 THEN Frac(Sq(Sub(y, a)), 1) ELSE IF s >= Sq(u) THEN Frac(Sq(Sub(y, b)), 1)
  ELSE LET c == Cross(u, Sub(y, a)) IN Frac(c * c, Sq(u))
MinF(S) == CHOOSE f \in S : \A g \in S : Le(f, g)
D(L, y) == MinF({El(L[i], L[i + 1], y) : i \in 1..Len(L) - 1})
Init == line \in {<<p, q>> : p \in P, q \in P \ {<<0, 0>>}} /\ line[1] # line[2] /\ x \in P
Extend == Len(line) < 3 /\ \E q \in P : q # line[Len(line)] /\ line' = Append(line, q) /\ UNCHANGED x
Move == Len(line) = 3 /\ \E y \in P : x' = y /\ UNCHANGED line
Next == Extend \/ Move
Spec == Init /\ [][Next]_<<line, x>>
\* points of the surface at parameters k/6
Sample(i, k) == LET a == line[i] b == line[i + 1] IN <<6 * a[1] + k * (b[1] - a[1]), 6 * a[2] + k * (b[2] - a[2])>>
Six(y) == <<6 * y[1], 6 * y[2]>>
LowerBound == \A i \in 1..Len(line) - 1, k \in 0..6 : Le(D(line, x), Frac(Sq(Sub(Six(x), Sample(i, k))), 36))
Attained == \E i \in 1..Len(line) - 1 : LET a == line[i] u == Sub(line[i + 1], a) s == Dot(Sub(x, a), u) w == Sq(u) IN
  \/ Eq(D(line, x), Frac(Sq(Sub(x, a)), 1)) \/ Eq(D(line, x), Frac(Sq(Sub(x, line[i + 1])), 1))
  \/ s \in 0..w /\ Eq(D(line, x), Frac(Sq(Sub(<<w * x[1], w * x[2]>>, <<w * a[1] + s * u[1], w * a[2] + s * u[2]>>)), w * w))
Reverse(L) == [i \in 1..Len(L) |-> L[Len(L) + 1 - i]]
Turned == Eq(D(line, x), D(Reverse(line), x))
Cut == \A i \in 1..Len(line) - 1 : LET s == [j \in 1..2 |-> line[i][j] + line[i + 1][j]] IN
  s[1] % 2 = 0 /\ s[2] % 2 = 0 =>
    Eq(D(line, x), D(SubSeq(line, 1, i) \o <<<<s[1] \div 2, s[2] \div 2>>>> \o SubSeq(line, i + 1, Len(line)), x))
Lipschitz == \A i \in 1..Len(line) : Le(D(line, x), Frac(Sq(Sub(x, line[i])), 1))
=============================================================================
