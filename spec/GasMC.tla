------------------------------- MODULE GasMC -------------------------------
\* The reference gas is coherent: every identity that makes the definitions what
\* they are called holds on a grid of states and directions.
EXTENDS Gas, FiniteSets
VARIABLES l, r, n
vv == <<l, r, n>>
Vals == {"-0.7", "0", "1.3"}
Vecs(D) == [1..D -> IF D = 3 THEN {"-0.7", "1.3"} ELSE Vals]
Num(v) == [i \in 1..Len(v) |-> DDec(v[i])]
States(D) == {State(DDec(a), Num(u), DDec(p)) : a \in {"0.4", "1.7"}, u \in Vecs(D), p \in {"0.2", "1.1"}}
Some(D) == {State(DDec("0.9"), Num([i \in 1..D |-> IF i = 1 THEN x ELSE "0.2"]), DDec(p)) : x \in {"-2.5", "0", "0.3", "3"}, p \in {"0.5", "1"}}
Dirs(D) == {Num(v) : v \in {x \in [1..D -> {"-0.5", "0", "2"}] : \E i \in 1..D : x[i] # "0"}}
Init == l = <<>> /\ r = <<>> /\ n = <<>>
Pick == l = <<>> /\ \E D \in 1..3 : l' \in States(D) /\ UNCHANGED <<r, n>>
Meet == l # <<>> /\ r = <<>> /\ r' \in Some(Dim(l)) /\ n' \in Dirs(Dim(l)) /\ UNCHANGED l
Next == Pick \/ Meet
Spec == Init /\ [][Next]_vv
Tol == DDec("1e-12")
\* 4th order difference of F along v at x
E == DDec("2e-4")
At(x, k, v) == VAxpy(k ** E, v, x)
Diff(F(_), x, v) == LET f(k) == F(At(x, k, v)) IN VScale(Inv(I(12) ** E), VAdd(VSub(f(Neg(I(2))), f(I(2))), VScale(I(8), VSub(f(I(1)), f(Neg(I(1)))))))
Near(x, y) == VClose(x, y, DDec("1e-8"), DDec("1e-8"))
F1(q) == <<Entropy(q)>>
RoundTrip == l # <<>> => Adm(l) /\ VClose(Q(W(l)), l, Tol, Tol)
\* the entropy variables are the entropy's gradient, A0 their map's derivative
Gradient == l # <<>> => LET v == VScale(Inv(VNorm(W(l))), W(l)) IN Near(Diff(F1, l, v), <<VDot(v, W(l))>>)
Convex == l # <<>> => Near(Diff(Q, W(l), l), A0(l, l)) /\ DLe(I(0), VDot(l, A0(l, l)))
Two == r # <<>> =>
  LET u == Vel(l) h == H(l) s == Speeds(n, u, h) d == VSub(r, l)
      F(q) == Flux(n, q) IN
  /\ Near(Diff(F, l, d), Waves(n, u, h, d, s[1], s[2], s[3]))
  /\ VClose(Waves(n, u, h, d, I(1), I(1), I(1)), d, Tol, Tol)
  \* Roe's average linearises the jump exactly
  /\ LET ru == RoeU(l, r) rh == RoeH(l, r) rs == Speeds(n, ru, rh)
     IN VClose(Waves(n, ru, rh, d, rs[1], rs[2], rs[3]), VSub(Flux(n, r), Flux(n, l)), DDec("1e-11"), DDec("1e-11"))
  \* symmetric dissipation, convex entropy, potential
  /\ DClose(VDot(d, A0(l, r)), VDot(r, A0(l, d)), DDec("1e-11"), DDec("1e-11"))
  /\ DLe(Neg(Tol), EntropyAt(r, l))
  /\ DClose(VDot(W(l), Flux(n, l)) -- (VDot(u, n) ** Entropy(l)), Psi(n, l), Tol, DDec("1e-11"))
  /\ DLe(DMax(DAbs(s[1]), DAbs(s[2])), Radius(n, l) ++ Tol)
  /\ VClose(Upwind(n, l, l), Flux(n, l), Tol, Tol) /\ VClose(Roe(n, l, l), Flux(n, l), Tol, Tol)
  /\ DClose(VDot(Mid(Slip(n, l)), n), I(0), Tol, Tol) /\ VClose(Flux(n, Slip(n, l)), Cat(I(0), VScale(P(Slip(n, l)), n), I(0)), Tol, DDec("1e-11"))
\* stresses dissipate entropy, the fluxes of a gradient pair symmetrically
Grad(q, k) == [d \in 1..Dim(q) |-> [i \in 1..Len(q) |-> q[((i * (k + d)) % Len(q)) + 1]]]
Visc == r # <<>> =>
  LET X == Grad(l, 1) Y == Grad(r, 2) D == Dim(l)
      f(Z) == [d \in 1..D |-> Viscous(d, Half, DDec("0.72"), l, Z)] IN
  /\ DClose(Pair(D, X, f(Y)), Pair(D, Y, f(X)), DDec("1e-11"), DDec("1e-11"))
  /\ DLe(Neg(Tol), Pair(D, X, f(X)))
=============================================================================
