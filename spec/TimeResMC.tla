------------------------------ MODULE TimeResMC ------------------------------
EXTENDS TimeRes, Integers, TLC
I(n) == IF n >= 0 THEN DInt(n) ELSE DNeg(DInt(0 - n))
V(a, b) == <<I(a), I(b)>>
Prob(c) == [A |-> <<V(1, 2), V(0 - 1, 3)>>, c |-> I(c), b |-> V(1, 0), d |-> V(0, 2)]
Vals == {V(1, 2), V(0, 1)}
MCNext ==
  \/ def = <<>> /\ \E c \in {0, 1} : New(Prob(c), <<V(2, 0), V(1, 1)>>, "hypre")
  \/ def # <<>> /\ \E s \in {"a", "k"}, v \in Vals : Vec(s, v)
  \/ {"a", "k"} \subseteq DOMAIN slot /\
     (\/ st = "" /\ Set([state |-> "a", state_dot |-> "k"])
      \/ \E h \in {0, 2, 0 - 1} : Set([dt |-> I(h)])
      \/ \E h \in {0, 3} : Set([time |-> I(h)])
      \/ \E h \in {0, 1} : Set([p |-> I(h), state_dot |-> "k"]))
MCSpec == Init /\ [][MCNext]_vars
Ready == def # <<>> /\ st # ""
\* F(k + x) - F(k) = J x when R is linear
FAt(k) == LET at == IF DEq(dt, N0) THEN U ELSE VAxpy(dt, k, U) IN VAdd(RVal(def.P, at, time, p), MatVec(def.M, k))
Derivative == Ready /\ DEq(def.P.c, N0) => \A x \in Vals : VEq(VSub(FAt(VAdd(K, x)), F), J(x))
\* when it is not, J is the slope: the symmetric difference is exact up to the cubic term
Slope == Ready => \A x \in Vals :
  VEq(VSub(VSub(FAt(VAdd(K, x)), FAt(VSub(K, x))), VScale(I(2), J(x))),
      IF DEq(dt, N0) THEN V(0, 0) ELSE VScale(DMul(I(2), DMul(def.P.c, DMul(dt, DMul(dt, dt)))), Cube(x)))
\* with a zero step the unknown enters through the mass matrix only
Explicit == Ready /\ DEq(dt, N0) => VEq(VSub(F, MatVec(def.M, K)), RVal(def.P, U, time, p))
=============================================================================
