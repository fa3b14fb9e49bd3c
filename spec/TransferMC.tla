----------------------------- MODULE TransferMC -----------------------------
\* Over the integers modulo a prime: tangential and normal components survive
\* the maps, the 2D curl is the Piola map of the turned gradient, moving an
\* element linearly changes the field accordingly; what is given stays given.
EXTENDS Transfer, Integers, TLC
CONSTANT Q
VARIABLE last
F == 0..(Q - 1)
FPlus(a, b) == (a + b) % Q
FTimes(a, b) == (a * b) % Q
FMinus(a) == (Q - a) % Q
Inv == [a \in F |-> IF a = 0 THEN 0 ELSE CHOOSE b \in F : (a * b) % Q = 1]
FRecip(a) == Inv[a]
FNum(i) == i % Q
FLength(v) == Total(LAMBDA i : FTimes(v[i], v[i]), Len(v))      \* squared
\* one triangle with linear coordinates, state at its vertices
B == <<<<FMinus(1), FMinus(1)>>, <<1, 0>>, <<0, 1>>>>
Els == <<[s |-> <<<<1, 1>>, <<2, 0>>, <<3, 1>>>>, c |-> <<<<1, 2>>, <<3, 4>>, <<5, 6>>>>, md |-> <<B>>, b |-> <<B>>]>>
V == {<<0, 0>>, <<1, 2>>, <<2, 2>>}
MCInit == Init /\ last = <<>>
MCBuild == ~Has /\ \E k \in {"vector", "curl", "mag"} : \E a, b \in F \X F : Build(k, 2, Els, <<1, 0>> \o a \o b, <<1, 2, 0>>)
           /\ last' = op'
MCGive == Has /\ \E v \in V : \/ Give([state |-> v \o <<1>>]) /\ last' = [last EXCEPT !.state = v \o <<1>>]
                              \/ Give([mesh_coords |-> <<0, 1>> \o v \o <<2, 1>>]) /\ last' = [last EXCEPT !.coords = <<0, 1>> \o v \o <<2, 1>>]
MCNext == MCBuild \/ MCGive
MCSpec == MCInit /\ [][MCNext]_<<op, last>>
Kept == Has => op = last
J == Jac(op, 1, B)
Good == Has /\ Det(J) # 0
D(a, b) == Total(LAMBDA i : FTimes(a[i], b[i]), Len(a))
T2 == {<<1, 0>>, <<0, 1>>, <<1, 3>>, <<2, 1>>}
Tangents == Good => \A v, t \in T2 : D(Covariant(J, v), Apply(J, t)) = D(v, t)
Normals == Good => \A v, g \in T2 : FTimes(Det(J), D(Contravariant(J, v), Covariant(J, g))) = D(v, g)
Curl2 == Good => \A g \in T2 : Turned(Covariant(J, g)) = Contravariant(J, Turned(g))
\* the gradient the element gives is the one that reproduces differences between vertices
Differences == (Good /\ op.kind # "mag") =>
  LET f == Field(op, 1, 1)  g == IF op.kind = "vector" THEN f ELSE <<f[2], FMinus(f[1])>>
      u == El(op, 1)  x(k) == <<op.coords[2 * k - 1], op.coords[2 * k]>>
      d(k) == <<FPlus(x(k)[1], FMinus(x(1)[1])), FPlus(x(k)[2], FMinus(x(1)[2]))>>
  IN \A k \in {2, 3} : D(g, d(k)) = FPlus(u[k], FMinus(u[1]))
\* three dimensions: the cofactors are those of the inverse
M3 == {<<<<1, a, 0>>, <<b, 1, c>>, <<2, 0, d>>>> : a, b, c, d \in F}
ASSUME \A A \in M3 : Det(A) # 0 => \A v, t \in {<<1, 0, 2>>, <<0, 1, 1>>, <<3, 1, 0>>} :
         D(Covariant(A, v), Apply(A, t)) = D(v, t) /\ FTimes(Det(A), D(Contravariant(A, v), Covariant(A, t))) = D(v, t)
=============================================================================
