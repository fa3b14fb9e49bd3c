--------------------------- MODULE FlowResTrace ---------------------------
EXTENDS FlowRes, IEEE, Sequences, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
P(c) == [dim |-> c.dim, ev |-> c.ev, flux |-> c.flux, visc |-> c.visc, basis |-> c.basis, deg |-> c.deg, curved |-> c.curved,
         lps |-> c.lps, jump |-> c.jump, bcs |-> {c.bcs[k] : k \in 1..Len(c.bcs)},
         ranks |-> c.ranks, par |-> c.par]
Comp == 1..(prob.dim + 2)
Dims == 1..prob.dim
\* ---- numbers
One == DInt(1)
RECURSIVE SumOf(_, _)
SumOf(f(_), n) == IF n = 0 THEN DInt(0) ELSE DAdd(SumOf(f, n - 1), f(n))
Gamma == DDec("1.4")
Gami == DSub(Gamma, One)
Dot2(R, W) == SumOf(LAMBDA c : VDot(R[c], W[c]), Len(R))
Sizes(R) == SumOf(LAMBDA c : VNorm(R[c]), Len(R))
Prod(R, W) == SumOf(LAMBDA c : DMul(VNorm(R[c]), VNorm(W[c])), Len(R))
Eps == DDec("1e-10")
Scale(R, Q) == DMul(Eps, DAdd(Sizes(R), Sizes(Q)))
Small(a, s) == DLe(DAbs(a), s)
Speed2(q) == SumOf(LAMBDA d : DMul(DDiv(q[d + 1], q[1]), DDiv(q[d + 1], q[1])), prob.dim)
Pressure(q) == DMul(Gami, DSub(q[prob.dim + 2], DMul(DRat(1, 2), DMul(q[1], Speed2(q)))))
Specific(q) == DSub(DLog(Pressure(q)), DMul(Gamma, DLog(q[1])))      \* the entropy s
MathEntropy(q) == DNeg(DDiv(DMul(q[1], Specific(q)), Gami))
Sound(q) == DSqrt(DDiv(DMul(Gamma, Pressure(q)), q[1]))
Near(a, b, s) == DLe(DAbs(DSub(a, b)), s)
At(Q, i) == [c \in 1..Len(Q) |-> Q[c][i]]
\* ---- central differences; values at -2h -h h 2h
D2(q, h) == DDiv(DSub(q[3], q[2]), DMul(DInt(2), h))
D4(q, h) == DDiv(DSub(DMul(DInt(8), DSub(q[3], q[2])), DSub(q[4], q[1])), DMul(DInt(12), h))
Abs4(q, h) == DDiv(DAdd(DAdd(DAbs(q[1]), DAbs(q[2])), DAdd(DAbs(q[3]), DAbs(q[4]))), h)
IsSlope(g, q, h, more) ==
  Near(g, D4(q, h), DAdd(DAdd(DMul(DDec("1e-7"), DAdd(DAbs(g), DAbs(D4(q, h)))), DMul(DRat(1, 10), DAbs(DSub(D4(q, h), D2(q, h))))),
                         DAdd(DMul(DDec("2e-14"), DAdd(Abs4(q, h), DDiv(more, h))), DDec("1e-11"))))
\* ---- entropy produced by viscosity: at every node the stress and heat flux
\* of the gradients of velocity and temperature T = p / rho
Vel(n) == [d \in Dims |-> DDiv(n.q[d + 1], n.q[1])]
Temp(n) == DDiv(Pressure(n.q), n.q[1])
DuDx(n) == [d \in Dims |-> [k \in Dims |-> DMul(Temp(n), DAdd(n.g[d][k + 1], DMul(Vel(n)[k], n.g[d][prob.dim + 2])))]]
Div(G) == SumOf(LAMBDA d : G[d][d], prob.dim)
Tau(G) == [d \in Dims |-> [k \in Dims |-> DSub(DAdd(G[d][k], G[k][d]), IF d = k THEN DMul(DRat(2, 3), Div(G)) ELSE DInt(0))]]
Work(G, t) == SumOf(LAMBDA d : SumOf(LAMBDA k : DMul(G[d][k], t[d][k]), prob.dim), prob.dim)
Heat(n) == DMul(DMul(Temp(n), Temp(n)), SumOf(LAMBDA d : DMul(n.g[d][prob.dim + 2], n.g[d][prob.dim + 2]), prob.dim))
Sutherland(n) == LET a2 == DMul(Gamma, Temp(n))  S == DDiv(DDec("198.6"), DDec("460.0"))
                 IN DDiv(DMul(DMul(a2, DSqrt(a2)), DAdd(One, S)), DAdd(a2, S))
Mu(n) == IF DLt(prob.par.mu, DInt(0)) THEN Sutherland(n) ELSE prob.par.mu
NodeProduction(n) ==
  LET G == DuDx(n) IN
  DMul(DMul(n.h, DDiv(Mu(n), prob.par.Re)),
       DAdd(DDiv(Work(G, Tau(G)), Temp(n)), DMul(DDiv(Gamma, DMul(Gami, prob.par.Pr)), Heat(n))))
Production(e) == SumOf(LAMBDA i : NodeProduction(e.grads[i]), Len(e.grads))
\* ---- outputs
InList(x, s) == \E k \in 1..Len(s) : s[k] = x
BdrSum(e, f(_), bs) == SumOf(LAMBDA b : IF InList(e.bdr[b].attr, bs) THEN DMul(e.bdr[b].w, f(e.bdr[b])) ELSE DInt(0), Len(e.bdr))
Aoa == DMul(prob.par.aoa, DDiv(DMul(DInt(1), DDec("3.14159265358979323846")), DInt(180)))
Dir(t) == [d \in Dims |-> IF prob.dim = 1 THEN (IF t = "drag" THEN One ELSE DInt(0))
                          ELSE IF d > 2 THEN DInt(0)
                          ELSE IF (t = "drag") = (d = 1) THEN DCos(Aoa) ELSE IF t = "drag" THEN DSin(Aoa) ELSE DNeg(DSin(Aoa))]
Force(e, f) == DDiv(BdrSum(e, LAMBDA b : DMul(Pressure(b.q), VDot(b.n, Dir(f.type))), f.boundaries), DMul(prob.par.mach, prob.par.mach))
\* entropy relative to the state of Mach 0.2 stagnation, weighted around (0.5, 0)
RhoRef == DPow(DAdd(One, DMul(DMul(DRat(1, 2), Gami), DRat(1, 25))), DDiv(One, Gami))
PRef == DDiv(DPow(DAdd(One, DMul(DMul(DRat(1, 2), Gami), DRat(1, 25))), DDiv(Gamma, Gami)), Gamma)
Dist2(x) == DAdd(DMul(DSub(x[1], DRat(1, 2)), DSub(x[1], DRat(1, 2))), DMul(x[2], x[2]))
BdrEntropy(e, f) == BdrSum(e, LAMBDA b : DMul(DMul(DExp(DNeg(DDiv(Dist2(b.x), DDec("0.01")))), VNorm(b.n)),
                                   DAdd(MathEntropy(b.q), DDiv(DMul(RhoRef, DSub(Pressure(b.q), PRef)), PRef))), f.boundaries)
OutputOk(e, f) ==
  LET v == IF f.type = "entropy" THEN e.entropy ELSE IF f.type = "boundary-entropy" THEN BdrEntropy(e, f) ELSE Force(e, f)
  IN Near(f.value, v, DMul(DDec("1e-9"), DAdd(One, DAbs(v)))) /\ (f.type = "boundary-entropy" => DClose(f.value, v, DDec("1e-6"), DDec("1e-14")))
\* mfem leaves faces between ranks out of the energy and gradient of a form
Whole == prob.ranks = 1 \/ prob.basis = "csbp"
\* ---- the residual
ResidualOk(e) ==
  LET s == Scale(e.R, e.Q)  wr == Dot2(e.W, e.R)  ws == DMul(Eps, DAdd(Prod(e.W, e.R), Prod(e.W, e.Q))) IN
  /\ Len(e.R) = prob.dim + 2
  /\ \A c \in Comp : VFinite(e.R[c])
  /\ (Steady(prob, e.state) => \A c \in Comp : Small(VNormInf(e.R[c]), DMul(DDec("1e-9"), DAdd(One, Sizes(e.Q)))))
  /\ \A c \in Kept(prob) : Small(VSum(e.R[c]), s)
  /\ (EntropyKept(prob, e.state) => Small(wr, ws))
  /\ (EntropyFalls(prob) => DLe(DNeg(ws), wr))
  /\ (Produces(prob, e.state) /\ e.grads # <<>> => Near(wr, Production(e), DAdd(DMul(DDec("1e-9"), DAbs(wr)), ws)))
  /\ (prob.flux = "IR" /\ Whole => Near(e.change, wr, ws))
  \* the mass matrix is diagonal and the same for every component
  /\ \A c \in Comp : VClose(e.HU[c], VMul(e.H[c], e.U[c]), DDec("1e-13"), DInt(0)) /\ VClose(e.H[c], e.H[1], DDec("1e-13"), DInt(0))
  /\ \A i \in 1..Len(e.S) : DClose(e.S[i], MathEntropy(At(e.Q, i)), DDec("1e-9"), DDec("1e-9"))
  /\ Near(e.entropy, VDot(e.H[1], e.S), DMul(DDec("1e-11"), DAdd(One, DMul(VNorm(e.H[1]), VNorm(e.S)))))
  /\ \A k \in 1..Len(e.forces) : OutputOk(e, e.forces[k])
\* ---- the time step: the fastest wave along every pair of nodes of an element
PairTime(x, y, q) ==
  LET dx == VSub(y, x)  L == VNorm(dx)
      un == DAbs(DDiv(SumOf(LAMBDA d : DMul(dx[d], DDiv(q[d + 1], q[1])), prob.dim), L))
  IN DDiv(L, DAdd(un, Sound(q)))
TimeStepOk(e) ==
  LET Lim(el, i, j) == DMul(e.cfl, PairTime(el.x[i], el.x[j], el.q[i])) IN
  /\ \A k \in 1..Len(e.elems) : \A i, j \in 1..Len(e.elems[k].x) :
        i # j => DLe(e.dt, DMul(DDec("1.0000001"), Lim(e.elems[k], i, j)))
  /\ \E k \in 1..Len(e.elems) : \E i, j \in 1..Len(e.elems[k].x) :
        i # j /\ DLe(Lim(e.elems[k], i, j), DMul(DDec("1.0000001"), e.dt))
\* ---- error norms
ErrOk(e) ==
  LET Sq(c) == VDot(e.H[c], VMul(VSub(e.Q[c], e.E[c]), VSub(e.Q[c], e.E[c])))
      t == IF e.entry < 0 THEN SumOf(Sq, prob.dim + 2) ELSE Sq(e.entry + 1)
  IN DClose(e.err, DSqrt(t), DDec("1e-9"), DDec("1e-11"))
\* fluxes with absolute values have kinks: one of the steps has to miss them
JacOk(e) == \E k \in 1..Len(e.steps) : LET s == e.steps[k] IN
  IsSlope(VDot(e.a, e.post), [m \in 1..4 |-> VDot(e.a, s.F[m])], s.h, SumOf(LAMBDA m : DMul(VNorm(e.a), VNorm(s.F[m])), 4))
GradOk(e) == \E k \in 1..Len(e.steps) : LET s == e.steps[k] IN
  IsSlope(VDot(e.a, e.post), [m \in 1..4 |-> s.F[m][1]], s.h, DInt(0))
TNext ==
  \/ Is("Reset") /\ prob' = NoProblem
  \/ Is("Problem") /\ Setup(P(Ev.p))
  \/ Is("Residual") /\ Residual(Ev.state) /\ ResidualOk(Ev)
  \/ Is("Jacobian") /\ Jacobian(Ev.state) /\ (Whole => JacOk(Ev))
  \/ Is("OutputDeriv") /\ OutputDeriv(Ev.state) /\ GradOk(Ev)
  \/ Is("TimeStep") /\ TimeStep(Ev.state) /\ TimeStepOk(Ev)
  \/ Is("L2Error") /\ L2Error(Ev.state) /\ ErrOk(Ev)
  \/ Is("End") /\ UNCHANGED prob
TSpec == TInit /\ [][TNext]_<<prob, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
