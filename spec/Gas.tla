-------------------------------- MODULE Gas --------------------------------
\* A calorically perfect gas: what the state vectors, their conversions and
\* their fluxes mean, and what a numerical flux owes to them.
\*   q  conservative variables <<density, momentum..., total energy>>
\*   w  entropy variables
\*   n  a direction, of any length
EXTENDS Naturals, Sequences, IEEE
a ++ b == DAdd(a, b)
a -- b == DSub(a, b)
a ** b == DMul(a, b)
a // b == DDiv(a, b)
I(k) == DInt(k)
Half == DRat(1, 2)
Neg(x) == I(0) -- x
G == DDec("1.4")
G1 == G -- I(1)
ST == DDec("198.60") // DDec("460.0")
Rho(q) == q[1]
Mid(q) == SubSeq(q, 2, Len(q) - 1)
Last(q) == q[Len(q)]
Cat(r, m, e) == <<r>> \o m \o <<e>>
Dim(q) == Len(q) - 2
Inv(x) == I(1) // x
Vel(q) == VScale(Inv(Rho(q)), Mid(q))
Sq(v) == VDot(v, v)
Kin(q) == Half ** (Sq(Mid(q)) // Rho(q))
P(q) == G1 ** (Last(q) -- Kin(q))
Snd(q) == DSqrt((G ** P(q)) // Rho(q))
H(q) == (Last(q) ++ P(q)) // Rho(q)
Adm(q) == DLt(I(0), Rho(q)) /\ DLt(I(0), P(q))
\* build a state from density, velocity and pressure
State(r, u, p) == Cat(r, VScale(r, u), (p // G1) ++ (Half ** (r ** Sq(u))))
Flux(n, q) == LET U == VDot(Vel(q), n) p == P(q)
              IN Cat(Rho(q) ** U, VAdd(VScale(U, Mid(q)), VScale(p, n)), (Last(q) ++ p) ** U)
Thermo(q) == DLog(P(q) // DPow(Rho(q), G))
Entropy(q) == Neg((Rho(q) ** Thermo(q)) // G1)
W(q) == LET b == Rho(q) // P(q)
        IN Cat(((G -- Thermo(q)) // G1) -- (Half ** (b ** Sq(Vel(q)))), VScale(b, Vel(q)), Neg(b))
Q(w) == LET u == VScale(Neg(Inv(Last(w))), Mid(w))
            s == G -- (G1 ** (w[1] -- (Half ** (Sq(u) ** Last(w)))))
            r == DPow(Neg(Last(w)) ** DExp(s), Neg(Inv(G1)))
        IN State(r, u, Neg(r // Last(w)))
Psi(n, q) == VDot(Mid(q), n)
\* entropy relative to a state: the convex distance from its tangent plane
EntropyAt(q, e) == (Entropy(q) -- Entropy(e)) -- VDot(W(e), VSub(q, e))
Radius(n, q) == DAdd(DAbs(VDot(Vel(q), n)), Snd(q) ** VNorm(n))
\* the derivative of Q along v: symmetric positive definite
A0(q, v) == LET u == Vel(q) p == P(q) d == VDot(q, v) h == H(q) a2 == (G ** p) // Rho(q)
                m == VAdd(VScale(d, u), VScale(p, VAdd(Mid(v), VScale(Last(v), u))))
            IN Cat(d, m, ((Last(q) ** v[1]) ++ (h ** VDot(Mid(q), Mid(v)))) ++ (((Rho(q) ** (h ** h)) -- ((a2 ** p) // G1)) ** Last(v)))
\* the waves of the linearised gas at velocity u and total enthalpy h: dq split
\* into two acoustic waves and the part carried with the flow, each scaled
Waves(n, u, h, dq, plus, minus, flow) ==
  LET len == VNorm(n)
      nn == VScale(Inv(len), n)
      phi == Half ** Sq(u)
      a == DSqrt(G1 ** (h -- phi))
      un == VDot(u, nn)
      X == ((phi ** dq[1]) -- VDot(u, Mid(dq))) ++ Last(dq)
      Y == VDot(Mid(dq), nn) -- (un ** dq[1])
      ap == Half ** (((G1 ** X) // (a ** a)) ++ (Y // a))
      am == Half ** (((G1 ** X) // (a ** a)) -- (Y // a))
      rp == VScale(ap, Cat(I(1), VAdd(u, VScale(a, nn)), h ++ (a ** un)))
      rm == VScale(am, Cat(I(1), VSub(u, VScale(a, nn)), h -- (a ** un)))
      rest == VSub(VSub(dq, rp), rm)
  IN VAdd(VAdd(VScale(plus, rp), VScale(minus, rm)), VScale(flow, rest))
\* speeds of the waves: with the sound, against it, with the flow
Speeds(n, u, h) == LET len == VNorm(n) a == DSqrt(G1 ** (h -- (Half ** Sq(u)))) un == VDot(u, n)
                   IN <<un ++ (a ** len), un -- (a ** len), un>>
MinusPart(x) == DMin(x, I(0))
\* what leaves the domain when the outside state is b: the interior flux, with
\* everything that travels inwards taken from b
Upwind(n, b, q) == LET s == Speeds(n, Vel(b), H(b))
                   IN VSub(Flux(n, q), Waves(n, Vel(b), H(b), VSub(q, b), MinusPart(s[1]), MinusPart(s[2]), MinusPart(s[3])))
RoeU(l, r) == LET a == DSqrt(Rho(l)) b == DSqrt(Rho(r)) IN VScale(Inv(a ++ b), VAdd(VScale(a, Vel(l)), VScale(b, Vel(r))))
RoeH(l, r) == LET a == DSqrt(Rho(l)) b == DSqrt(Rho(r)) IN ((a ** H(l)) ++ (b ** H(r))) // (a ++ b)
Roe(n, l, r) == LET u == RoeU(l, r) h == RoeH(l, r) s == Speeds(n, u, h)
                    fast == DAbs(s[3]) ++ (VNorm(n) ** DSqrt(G1 ** (h -- (Half ** Sq(u)))))
                    speed(i) == DMax(DAbs(s[i]), DRat(1, 40) ** fast)   \* no wave is quite at rest
                IN VSub(VScale(Half, VAdd(Flux(n, l), Flux(n, r))),
                        VScale(Half, Waves(n, u, h, VSub(r, l), speed(1), speed(2), speed(3))))
\* solid wall: only pressure
Wall(n, q) == Cat(I(0), VScale(P(q), n), I(0))
Slip(n, q) == LET nn == VScale(Inv(VNorm(n)), n) IN Cat(Rho(q), VSub(Mid(q), VScale(VDot(Mid(q), nn), nn)), Last(q))
\* everything carried at normal velocity U
Carried(n, q, U) == Cat(Rho(q) ** U, VAdd(VScale(U, Mid(q)), VScale(P(q), n)), (Last(q) ++ P(q)) ** U)
\* advected with the outside velocity, pressure of the inside
Advect(n, b, q) == LET U == VDot(n, Vel(b)) c == IF DLt(U, I(0)) THEN b ELSE q
                   IN Cat(Rho(c) ** U, VAdd(VScale(U, Mid(c)), VScale(P(q), n)), (Last(c) ++ P(c)) ** U)
\* ---- viscous: Dw[d] is the derivative of the entropy variables along axis d
Sutherland(q) == LET t == (G ** P(q)) // Rho(q) IN ((DSqrt(t) ** t) ** (I(1) ++ ST)) // (t ++ ST)
Temp(q) == P(q) // Rho(q)
GradU(q, Dw) == [d \in 1..Len(Dw) |-> VScale(Temp(q), VAdd(Mid(Dw[d]), VScale(Last(Dw[d]), Vel(q))))]
GradT(q, Dw) == [d \in 1..Len(Dw) |-> (Temp(q) ** Temp(q)) ** Last(Dw[d])]
RECURSIVE SumTo(_, _)
SumTo(k, f) == IF k = 0 THEN I(0) ELSE SumTo(k - 1, f) ++ f[k]
\* stresses and heat flux through axis d
Viscous(d, mu, Pr, q, Dw) ==
  LET D == Len(Dw)
      gu == GradU(q, Dw)
      div == SumTo(D, [k \in 1..D |-> gu[k][k]])
      tau == [k \in 1..D |-> mu ** ((gu[d][k] ++ gu[k][d]) -- (IF k = d THEN DRat(2, 3) ** div ELSE I(0)))]
      kap == (mu ** G) // (Pr ** G1)
  IN Cat(I(0), tau, VDot(Vel(q), tau) ++ (kap ** GradT(q, Dw)[d]))
Through(n, mu, Pr, q, Dw) ==
  LET f == [d \in 1..Len(Dw) |-> VScale(n[d], Viscous(d, mu, Pr, q, Dw))]
      RECURSIVE S(_)
      S(k) == IF k = 1 THEN f[1] ELSE VAdd(S(k - 1), f[k])
  IN S(Len(Dw))
Column(Dw, s) == [d \in 1..Len(Dw) |-> Dw[d][s]]
\* the part of the gradient of component s that is tangential to the wall
Tangent(n, v) == LET nn == VScale(Inv(VNorm(n)), n) IN VSub(v, VScale(VDot(v, nn), nn))
LastTangent(n, Dw) == LET t == Tangent(n, Column(Dw, Len(Dw[1]))) IN [d \in 1..Len(Dw) |-> [Dw[d] EXCEPT ![Len(Dw[d])] = t[d]]]
AllTangent(n, Dw) == [d \in 1..Len(Dw) |-> [s \in 1..Len(Dw[d]) |-> Tangent(n, Column(Dw, s))[d]]]
RECURSIVE Pair(_, _, _)
Pair(k, X, Y) == IF k = 0 THEN I(0) ELSE Pair(k - 1, X, Y) ++ VDot(X[k], Y[k])
\* a penalty on the difference of the velocity part dw of the entropy variables
Penalty(n, jac, mu, Pr, fs, dw) ==
  LET D == Len(dw)
      z == Cat(I(0), dw, I(0))
      one(d) == Viscous(d, mu, Pr, fs, [k \in 1..D |-> IF k = d THEN z ELSE VScale(I(0), z)])
      RECURSIVE S(_)
      S(k) == IF k = 1 THEN one(1) ELSE VAdd(S(k - 1), one(k))
  IN Cat(I(0), VScale(VNorm(n) // jac, Mid(S(D))), I(0))
=============================================================================
