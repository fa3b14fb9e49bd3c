------------------------------ MODULE GasTrace ------------------------------
\* Every recorded evaluation is what the gas says it is.
\*   out   result, outAD the result of the differentiable instance of the code
EXTENDS Gas, FiniteSets, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Eps(k) == DDec(k)
Zero == I(0)
\* conditioning of pressure: cancellation of the energies
Cond(q) == I(1) ++ (Last(q) // P(q))
Near(x, y, q) == VClose(x, y, Eps("1e-13") ** (Cond(q) ** Cond(q)), Zero)
Near2(x, y, q, r) == VClose(x, y, Eps("1e-12") ** (DMax(Cond(q), Cond(r)) ** DMax(Cond(q), Cond(r))), Zero)
Abs2(x, y) == VClose(x, y, Eps("1e-11"), Zero)
At(e, tol) == DLe(DAbs(e), tol)
Size(n, q) == DMax(VNorm(Flux(n, q)), P(q) ** VNorm(n))
e_(D, d) == [k \in 1..D |-> I(IF k = d THEN 1 ELSE 0)]
\* fluxes are compared on the scale of pressure and momentum flux of both states
Fl(x, y, n, a, b) == VClose(x, y, Zero, (Eps("1e-12") ** (DMax(Cond(a), Cond(b)) ** DMax(Cond(a), Cond(b)))) ** ((I(1) ++ DMax(Snd(a), Snd(b))) ** (Size(n, a) ++ Size(n, b))))
LogAvg(a, b, x) ==
  LET f == (a -- b) // (a ++ b) IN
  /\ DLe(DMin(a, b), x ** (I(1) ++ Eps("1e-14"))) /\ DLe(x, DMax(a, b) ** (I(1) ++ Eps("1e-14")))
  /\ IF DLt(DAbs(f), Eps("3e-3"))
     THEN DClose(x ** (I(1) ++ (((f ** f) // I(3)) ++ (((f ** f) ** (f ** f)) // I(5)))), Half ** (a ++ b), Eps("1e-14"), Zero)
     ELSE DClose(x ** DLog(a // b), a -- b, Eps("1e-12"), Zero)
\* a two-point flux that conserves entropy
Conserves(n, F, a, b) == LET dw == VSub(W(b), W(a))
                             c == Eps("1e-12") ** (DMax(Cond(a), Cond(b)) ** DMax(Cond(a), Cond(b))) IN
  At(VDot(dw, F) -- (Psi(n, b) -- Psi(n, a)), c ** ((VNorm(W(a)) ++ VNorm(W(b))) ** VNorm(F)))
Friedrichs(n, c, a, b) == LET m == VScale(Half, VAdd(a, b)) IN VScale(c ** Radius(n, m), A0(m, VSub(W(a), W(b))))
RECURSIVE VAddAll(_, _)
VAddAll(k, f) == IF k = 1 THEN f[1] ELSE VAdd(VAddAll(k - 1, f), f[k])
NormAll(X) == DSqrt(SumTo(Len(X), [d \in 1..Len(X) |-> Sq(X[d])]))
VisSize(E) == (E.mu ** NormAll(E.Dw)) ** ((Temp(E.q) ** ((I(1) ++ VNorm(Vel(E.q))) ** (I(1) ++ VNorm(Vel(E.q))))) ++ ((Temp(E.q) ** Temp(E.q)) // E.Pr))
Vis(E, len, x, y) == VClose(x, y, Zero, (Eps("1e-11") ** Cond(E.q)) ** (len ** VisSize(E)))
\* central difference of values at -2h, -h, h, 2h
FD(f, h) == VScale(Inv(I(12) ** h), VAdd(VSub(f[1], f[4]), VScale(I(8), VSub(f[3], f[2]))))
Steady(E) == LET D == Len(E.st) IN VAddAll(D, [d \in 1..D |-> FD([i \in 1..4 |-> Flux(e_(D, d), E.st[d][i])], E.h)])
Friction(E) == LET D == Len(E.st)
                   dw(d, i) == [k \in 1..D |-> FD([m \in 1..4 |-> W(E.st2[d][i][k][m])], E.h)]
               IN VAddAll(D, [d \in 1..D |-> FD([i \in 1..4 |-> Viscous(d, E.mu, E.Pr, E.st[d][i], dw(d, i))], E.h)])
Agrees == Len(Ev.out) = Len(Ev.outAD) /\ VFinite(Ev.out) /\ VClose(Ev.out, Ev.outAD, Eps("1e-12"), Zero) /\ VFinite(Ev.more) /\ VClose(Ev.more, Ev.moreAD, Eps("1e-12"), Zero)
Wind(D, E) == [k \in 1..D |-> E.mach ** (IF D = 1 THEN I(1) ELSE IF k = E.roll + 1 THEN DCos(E.aoa) ELSE IF k = E.pitch + 1 THEN DSin(E.aoa) ELSE Zero)]
Right ==
  LET E == Ev q == E.q D == Len(q) - 2 o == E.out IN
  CASE E.op = "pressure" -> DClose(o[1], P(q), Eps("1e-14") ** Cond(q), Zero) /\ VClose(E.grad, VScale(G1, Cat(Half ** Sq(Vel(q)), VScale(Neg(I(1)), Vel(q)), I(1))), Eps("1e-13"), Zero)
    [] E.op = "entvars" -> Near(o, W(q), q) /\ VSame(E.id, E.w)
    [] E.op = "consvars" -> Near(o, q, q) /\ VSame(E.id, E.w)  \* from w = W(q)
    [] E.op = "entropy" -> DClose(o[1], Entropy(q), Eps("1e-13") ** Cond(q), Rho(q) ** (Eps("1e-13") ** Cond(q))) /\ DClose(E.viaw[1], Entropy(q), Eps("1e-13") ** (Cond(q) ** Cond(q)), Rho(q) ** (Eps("1e-13") ** (Cond(q) ** Cond(q))))
    [] E.op = "entropyref" -> LET s == (DAbs(Entropy(q)) ++ DAbs(Entropy(E.r))) ++ (VNorm(W(E.r)) ** (VNorm(q) ++ VNorm(E.r))) IN
                              At(o[1] -- EntropyAt(q, E.r), (Eps("1e-12") ** DMax(Cond(q), Cond(E.r))) ** s) /\ At(E.self[1], Eps("1e-12") ** s)
                              /\ DLe(Neg((Eps("1e-12") ** DMax(Cond(q), Cond(E.r))) ** s), o[1])
    [] E.op = "euler" -> Fl(o, Flux(E.n, q), E.n, q, q)
    [] E.op = "radius" -> DClose(o[1], Radius(E.n, q), Eps("1e-13") ** Cond(q), Zero) /\ DClose(E.viaw[1], Radius(E.n, q), Eps("1e-12") ** Cond(q), Zero)
    [] E.op = "slip" -> VClose(o, Slip(E.n, q), Eps("1e-13"), Zero)
    [] E.op = "wall" -> Fl(o, Wall(E.n, q), E.n, q, q) /\ Fl(E.viaw, Wall(E.n, q), E.n, q, q)
    [] E.op = "control" -> Fl(o, Carried(E.n, q, Neg(E.u ** VNorm(E.n))), E.n, q, q)
    [] E.op = "dqdw" -> Near(o, A0(q, E.v), q)
    [] E.op = "lps" -> LET s == SumTo(D, [d \in 1..D |-> Radius(E.adj[d], q)]) // I(D) x == VScale(s, A0(q, E.v)) IN Near(o, x, q) /\ Near(E.viaw, x, q)
    \* the Jacobian of the entropy variables inverts A0
    [] E.op = "jacw" -> \A j \in 1..(D + 2) : VClose(A0(q, [i \in 1..(D + 2) |-> E.jac[i][j]]), e_(D + 2, j), Zero, Eps("1e-11") ** ((Cond(q) ** Cond(q)) ** (I(1) ++ (VNorm(q) ** VNorm(Column(E.jac, j))))))
    [] E.op = "roe" -> LET a == q b == E.r IN
         /\ Fl(E.same, Flux(E.n, a), E.n, a, a)
         /\ Fl(o, VScale(Neg(I(1)), E.back), E.n, a, b) \* with the states and the direction turned round
         /\ Fl(o, Roe(E.n, a, b), E.n, a, b)
    [] E.op = "ir" -> LET a == q b == E.r IN
         /\ Fl(E.same, Flux(E.n, a), E.n, a, a)
         /\ Fl(o, E.swap, E.n, a, b)
         /\ Conserves(E.n, o, a, b)
         /\ Fl(o, E.viaw, E.n, a, b)
         /\ \A d \in 1..D : Fl(E.axis[d], E.axisw[d], e_(D, d), a, b)
         /\ Fl(o, VAddAll(D, [d \in 1..D |-> VScale(E.n[d], E.axis[d])]), E.n, a, b)
    [] E.op = "irdiss" -> LET a == q b == E.r IN
         /\ Fl(o, VAdd(E.plain, Friedrichs(E.n, E.c, a, b)), E.n, a, b)
         /\ Fl(o, E.viaw, E.n, a, b)
         /\ LET dw == VSub(W(b), W(a)) IN DLe(VDot(dw, o) -- (Psi(E.n, b) -- Psi(E.n, a)), (Eps("1e-12") ** (DMax(Cond(a), Cond(b)) ** DMax(Cond(a), Cond(b)))) ** ((VNorm(W(a)) ++ VNorm(W(b))) ** VNorm(o)))
    [] E.op = "bnd" -> LET b == E.r IN Fl(o, Upwind(E.n, b, q), E.n, q, b)
    [] E.op = "far" -> LET b == E.r IN Fl(o, Upwind(E.n, b, q), E.n, q, b) /\ Fl(E.viaw, Upwind(E.n, b, q), E.n, q, b)
    [] E.op = "bndec" -> LET w == W(q) IN
         /\ At((VDot(w, o) -- Psi(E.n, q)) -- E.ef, (Eps("1e-11") ** (Cond(q) ** Cond(q))) ** ((VNorm(w) ** (VNorm(o) ++ VNorm(Upwind(E.n, E.r, q)))) ++ DAbs(E.ef)))
         \* corrected along A0 w only
         /\ LET d == VSub(o, Upwind(E.n, E.r, q)) aw == A0(q, w) IN
            VClose(VScale(Sq(aw), d), VScale(VDot(d, aw), aw), Zero, Sq(aw) ** ((Eps("1e-12") ** (DMax(Cond(q), Cond(E.r)) ** DMax(Cond(q), Cond(E.r)))) ** ((I(1) ++ DMax(Snd(q), Snd(E.r))) ** ((Size(E.n, q) ++ Size(E.n, E.r)) ++ VNorm(d)))))
    [] E.op = "far2" -> Fl(o, Advect(E.n, E.r, q), E.n, q, E.r)
    [] E.op = "freestream" -> DEq(Rho(o), I(1)) /\ DClose(G ** P(o), I(1), Eps("1e-13") ** Cond(o), Zero) /\ VClose(Vel(o), Wind(Dim(o), E), Eps("1e-14"), Eps("1e-16"))
    [] E.op = "logavg" -> LogAvg(E.n[1], E.n[2], o[1]) /\ DClose(o[1], E.swap[1], Eps("1e-13"), Zero)
    [] E.op = "vortex" -> LET x == E.n R2 == Sq(x) s(v) == P(v) // DPow(Rho(v), G) M == DRat(1, 4) IN
         /\ DClose(Rho(o), I(2) ** DPow(I(1) ++ ((Half ** G1) ** (M ** (I(1) -- Inv(R2)))), Inv(G1)), Eps("1e-12"), Zero)
         /\ DClose(s(o), Inv(G) // DPow(I(2), G), Eps("1e-12"), Zero)
         /\ DClose(H(o), (Inv(G1) ** Half) ++ ((Half ** Half) ** (Half ** Half)), Eps("1e-12"), Zero) \* of a gas at rho 2, p 1/gamma, Mach 1/2
         /\ At(VDot(Mid(o), x), Eps("1e-12") ** (VNorm(x) ** VNorm(Mid(o)))) /\ DLt(Zero, (x[1] ** o[3]) -- (x[2] ** o[2]))
         /\ VClose(Steady(E), VScale(Zero, o), Zero, Eps("1e-8"))
    [] E.op = "vortexflux" -> Fl(o, Upwind(E.n, E.r, q), E.n, q, E.r) /\ Fl(E.viaw, Upwind(E.n, E.r, q), E.n, q, E.r)
    [] E.op = "sutherland" -> DClose(o[1], Sutherland(q), Eps("1e-13") ** Cond(q), Zero)
    [] E.op = "tangent" -> \A d \in 1..D : VClose(E.dw[d], AllTangent(E.n, E.Dw)[d], Zero, Eps("1e-13") ** NormAll(E.Dw))
    [] E.op = "viscous" -> \A d \in 1..D : Vis(E, I(1), E.f[d], Viscous(d, E.mu, E.Pr, q, E.Dw))
    [] E.op = "adiabatic" -> Vis(E, VNorm(E.n), o, Through(E.n, E.mu, E.Pr, q, LastTangent(E.n, E.Dw)))
    [] E.op = "noslip" -> VClose(o, Penalty(E.n, E.jac, E.mu, E.Pr, E.r, VScale(Inv(P(q)), Mid(q))), Eps("1e-11") ** Cond(q), Zero)
    [] E.op = "penalty" -> /\ VClose(o, Penalty(E.n, E.jac, E.mu, E.Pr, E.r, VScale(Inv(P(q)), VSub(Mid(q), VScale((Rho(q) ** E.u) // VNorm(E.n), E.n)))), Zero, (Eps("1e-11") ** Cond(q)) ** (VNorm(o) ++ VNorm(E.noslip)))
                           /\ VClose(E.zero, VScale(Zero, E.zero), Zero, Eps("1e-11") ** (Cond(q) ** (VNorm(o) ++ VNorm(E.noslip))))
    \* dual to the adiabatic wall flux: tested with any gradient
    [] E.op = "dual" -> LET T == LastTangent(E.n, E.Dw) z == Cat(Zero, VScale(Inv(P(q)), Mid(q)), Zero) IN
                        /\ DClose(Pair(D, T, E.f), Neg(VDot(z, Through(E.n, E.mu, E.Pr, q, T))), Eps("1e-11"), (Eps("1e-11") ** Cond(q)) ** (NormAll(T) ** NormAll(E.f)))
                        /\ At(VDot(Column(E.f, D + 2), E.n), Eps("1e-12") ** (VNorm(E.n) ** NormAll(E.f)))
    [] E.op = "mms" -> VClose(o, IF E.viscous THEN VSub(Steady(E), Friction(E)) ELSE Steady(E), Eps("1e-6"), Eps("1e-6"))
TInit == l = 1
TNext == \/ Is("Reset") \/ Is("End")
         \/ Is("Eval") /\ Agrees /\ Right
TSpec == TInit /\ [][TNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
