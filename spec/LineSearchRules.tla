---------------------------- MODULE LineSearchRules --------------------------
(* The decrease condition, safeguards and interpolants, in IEEE doubles.    *)
EXTENDS Naturals, Sequences, IEEE
E0 == DInt(0)
Two == DInt(2)
Three == DInt(3)
T12 == DDec("1e-12")
Sq(x) == DMul(x, x)
Cube(x) == DMul(x, DMul(x, x))
Bound(q, a) == DAdd(q.phi0, DMul(DMul(q.mu, a), q.dphi0))
TArmijo(q, a, f) == DLe(f, Bound(q, a))
TSuff(q, h) == TArmijo(q, h[Len(h)][1], h[Len(h)][2])
TSafe(q, a, b) ==
  /\ DLe(DMul(DMul(q.lo, a), DSub(DInt(1), T12)), b)
  /\ DLe(b, DMul(DMul(q.hi, a), DAdd(DInt(1), T12)))

\* x = sum of the terms y, without ruinous cancellation
WellCond(x, y1, y2, y3) ==
  /\ DIsFinite(x)
  /\ DLe(DMul(DDec("1e-5"), DAdd(DAbs(y1), DAdd(DAbs(y2), DAbs(y3)))), DAbs(x))
Clamp(q, a, t) == DMax(DMul(q.lo, a), DMin(DMul(q.hi, a), t))
Agree(q, a, t, b) == DClose(Clamp(q, a, t), b, DDec("1e-6"), E0)

\* phi(a) - phi0 - dphi0*a, the part of the merit value beyond the tangent
Excess(q, a, f) == DSub(DSub(f, q.phi0), DMul(q.dphi0, a))
ExcessOK(q, a, f) == WellCond(Excess(q, a, f), f, q.phi0, DMul(q.dphi0, a))
\* minimizer of phi0 + dphi0 x + c x^2
QuadMin(q, c) == DDiv(DNeg(q.dphi0), DMul(Two, c))
QuadRule(q, h, b) ==
  LET a == h[Len(h)][1]  f == h[Len(h)][2] IN
  ExcessOK(q, a, f) => Agree(q, a, QuadMin(q, DDiv(Excess(q, a, f), Sq(a))), b)
CubicRule(q, h, b) ==
  LET a1 == h[Len(h)-1][1]  f1 == h[Len(h)-1][2]
      a2 == h[Len(h)][1]    f2 == h[Len(h)][2]
      e1 == Excess(q, a1, f1)  e2 == Excess(q, a2, f2)
      den == DMul(Sq(a1), DMul(Sq(a2), DSub(a2, a1)))
      u1 == DMul(Sq(a1), e2)   u2 == DMul(Sq(a2), e1)
      v1 == DMul(Cube(a1), e2) v2 == DMul(Cube(a2), e1)
      A == DDiv(DSub(u1, u2), den)
      B == DDiv(DSub(v2, v1), den)
      w1 == Sq(B)  w2 == DMul(Three, DMul(A, q.dphi0))
      disc == DSub(w1, w2)
      rt == DSqrt(DMax(disc, E0))
      num == DSub(rt, B)
      eps == DDec("2.220446049250313e-16")
      isQuad == DLe(DAbs(A), DMul(eps, DDec("1e-3")))
      isCubic == DLe(DMul(eps, DDec("1e3")), DAbs(A)) IN
  (ExcessOK(q, a1, f1) /\ ExcessOK(q, a2, f2) /\ WellCond(DSub(v2, v1), v1, v2, E0)) =>
     /\ isQuad => Agree(q, a2, QuadMin(q, B), b)
     /\ (isCubic /\ WellCond(DSub(u1, u2), u1, u2, E0) /\ (DLe(disc, E0) \/ WellCond(disc, w1, w2, E0))
          /\ WellCond(num, rt, B, E0))
          => Agree(q, a2, DDiv(num, DMul(Three, A)), b)
TInterp(q, h, b) ==
  IF \E i \in {Len(h), Len(h) - 1} \cap 1..Len(h) : ~DIsFinite(h[i][2]) THEN TRUE
  ELSE IF Len(h) = 1 \/ q.order = 2 THEN QuadRule(q, h, b)
  ELSE CubicRule(q, h, b)

=============================================================================
