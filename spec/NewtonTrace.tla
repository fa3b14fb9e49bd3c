----------------------------- MODULE NewtonTrace ----------------------------
EXTENDS Newton, LineSearchRules, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
One == DInt(1)

TNorm(f) == VNorm(f)
TRhs(d, F) == IF d.b = <<>> THEN F ELSE VSub(F, d.b)
TSame(u, v) == /\ Len(u) = Len(v)
               /\ \/ VClose(u, v, DDec("1e-12"), DDec("1e-290"))
                  \/ \A i \in 1..Len(u) : DSame(u[i], v[i])
TSameNorm(a, b) == DSame(a, b) \/ DClose(a, b, DDec("1e-12"), DDec("1e-290"))
TStepOf(u, s, z) == DDiv(VDot(VSub(u, z), s), VDot(s, s))
TAt(u, a, s, z) ==
  LET w == VAxpy(DNeg(a), s, u) IN
  Len(z) = Len(u) /\ VFinite(s) => DLe(VNorm(VSub(w, z)), DMul(DDec("1e-11"), DAdd(VNorm(u), VNorm(VScale(a, s)))))
TGoal(d, m) == DMax(DMul(d.rel, m), d.abs)
TMayStop(m, g) == DLe(m, DMul(g, DDec("1.000000000001")))
TMustStop(m, g) == DLe(m, DMul(g, DDec("0.999999999999")))
TSlope(rr, Jc, m) == DDiv(DNeg(VDot(rr, Jc)), m)
TFin(m) == DIsFinite(m)

\* sufficient decrease of the norm, with a band where rounding decides
LimitOf(d, h) ==
  LET a == h[Len(h)][1] IN
  IF d.kind = "relaxed" THEN Bound(d, a)
  ELSE LET theta == IF Len(h) = 1 THEN E0 ELSE DDiv(a, h[Len(h)-1][1]) IN
       DMul(DSub(One, DMul(d.t, DSub(One, theta))), d.phi0)
BandOf(d, h) == DMul(DDec("1e-10"), d.phi0)
TMay(d, h) == DLe(h[Len(h)][2], DAdd(LimitOf(d, h), BandOf(d, h)))
TMust(d, h) == DLe(h[Len(h)][2], DSub(LimitOf(d, h), BandOf(d, h)))

\* the step is recovered from states, so shrinking it to rounding level blurs it
Blur(a) == DDiv(DMul(DDec("1e-13"), DAdd(One, VNorm(x))), VNorm(VScale(a, c)))
SharpEnough(a) == DLe(Blur(a), DDec("1e-8"))
NSafe(d, a, b) == SharpEnough(b) =>
  /\ DLe(DMul(DMul(d.lo, a), DDec("0.99999999")), b)
  /\ DLe(b, DMul(DMul(d.hi, a), DDec("1.00000001")))
\* inexact Newton: the parabola through half the squared norms at 0 and at the
\* last trial, with slope -r.Jc at 0
InexactRule(d, h, b) ==
  LET a == h[Len(h)][1]
      sl == DMul(DMul(d.dphi0, d.phi0), a)
      p0 == DMul(DDec("0.5"), Sq(d.phi0))
      p1 == DMul(DDec("0.5"), Sq(h[Len(h)][2]))
      e == DSub(DSub(p1, p0), sl)
      t == DDiv(DNeg(sl), DMul(Two, e))
      cl == DMax(d.lo, DMin(d.hi, t)) IN
  (DIsFinite(h[Len(h)][2]) /\ WellCond(e, p1, p0, sl)) => DClose(DDiv(b, a), cl, DDec("1e-6"), E0)
NInterp(d, h, b) == SharpEnough(b) =>
  IF d.kind = "inexact" THEN InexactRule(d, h, b) ELSE TInterp(d, h, b)

Start0(m) == [kind |-> q.kind, phi0 |-> m, dphi0 |-> TSlope(r, Ev.jc, m), alpha |-> One, mu |-> q.mu,
              lo |-> q.lo, hi |-> q.hi, order |-> q.order, t |-> q.t,
              maxit |-> IF q.kind = "relaxed" THEN q.lsmaxit ELSE q.maxit + 1]

TInit == NInit /\ l = 1
TBegin == Is("Begin") /\ NBegin(Ev.q, IF Ev.iterative THEN Ev.x0 ELSE VScale(E0, Ev.x0))
TRes == Is("Res") /\ (FirstRes(Ev.x, Ev.f) \/ AgainRes(Ev.x, Ev.f) \/ Trial(Ev.x, Ev.f))
TGrad == Is("Grad") /\ Jacobian(Ev.x)
TLin == Is("Lin") /\ Solve(Ev.rhs, Ev.c, Ev.jc, Start0(n))
TDone == Is("Done") /\ Done(Ev.x, Ev.conv, Ev.it, Ev.norm)
TAbort == Is("Abort") /\ Abort
TNext == TBegin \/ TRes \/ TGrad \/ TLin \/ TDone \/ TAbort
TSpec == TInit /\ [][TNext]_<<all, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
