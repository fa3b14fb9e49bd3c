-------------------------- MODULE FlowControlTrace --------------------------
EXTENDS FlowControl, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
RInv(a) == DDiv(DInt(1), a)
RTw == DDec("0.05")
ROpen(a) == DLt(DAbs(a), DDec("1e-15"))
RECURSIVE SumOf(_, _)
SumOf(f(_), n) == IF n = 0 THEN DInt(0) ELSE DAdd(SumOf(f, n - 1), f(n))
One == DInt(1)
Gamma == DDec("1.4")
Gami == DSub(Gamma, One)
Near(a, b, s) == DLe(DAbs(DSub(a, b)), s)
All(s, v, tol) == \A k \in 1..Len(s) : Near(s[k], v, tol)
\* ---- the boundary
Controlled(e) == {b \in 1..Len(e.bdr) : \E m \in 1..Len(ctl.p.control) : ctl.p.control[m] = e.bdr[b].attr}
FarField(e) == {b \in 1..Len(e.bdr) : \E m \in 1..Len(ctl.p.far) : ctl.p.far[m] = e.bdr[b].attr}
Over(e, set, f(_)) == SumOf(LAMBDA b : IF b \in set THEN DMul(e.bdr[b].w, f(e.bdr[b])) ELSE DInt(0), Len(e.bdr))
Speed2(q) == DDiv(DAdd(DMul(q[2], q[2]), DMul(q[3], q[3])), DMul(q[1], q[1]))
Pressure(q) == DMul(Gami, DSub(q[4], DMul(DRat(1, 2), DMul(q[1], Speed2(q)))))
Specific(q) == DSub(DLog(Pressure(q)), DMul(Gamma, DLog(q[1])))
MathEntropy(q) == DNeg(DDiv(DMul(q[1], Specific(q)), Gami))
RhoRef == DPow(DAdd(One, DMul(DMul(DRat(1, 2), Gami), DRat(1, 25))), DDiv(One, Gami))
PRef == DDiv(DPow(DAdd(One, DMul(DMul(DRat(1, 2), Gami), DRat(1, 25))), DDiv(Gamma, Gami)), Gamma)
Place(c) == IF c.act = <<>> THEN <<DRat(1, 2), DInt(0)>> ELSE c.act
Weight(c, x) == LET dx == DSub(x[1], Place(c)[1])  dy == DSub(x[2], Place(c)[2])
                IN DExp(DNeg(DDiv(DAdd(DMul(dx, dx), DMul(dy, dy)), DDec("0.01"))))
Measured(c, e) == Over(e, Controlled(e), LAMBDA b : DMul(DMul(Weight(c, b.x), VNorm(b.n)),
                          DAdd(MathEntropy(b.q), DDiv(DMul(RhoRef, DSub(Pressure(b.q), PRef)), PRef))))
\* blowing with unit velocity: what it carries out of the domain
Blown(c, b) == DMul(DNeg(VNorm(b.n)), Weight(c, b.x))
Carried(c, e, j) == Over(e, Controlled(e), LAMBDA b : DMul(Blown(c, b), IF j = 4 THEN DAdd(b.q[4], Pressure(b.q)) ELSE b.q[j]))
Exported(c, e) == Over(e, Controlled(e), LAMBDA b : DMul(Blown(c, b), MathEntropy(b.q)))
\* ---- the far field: convection with its velocity, upwind in every variable
EntVar(q) == LET p == Pressure(q) IN
  <<DSub(DDiv(DSub(Gamma, Specific(q)), Gami), DDiv(DMul(DRat(1, 2), DMul(q[1], Speed2(q))), p)), DDiv(q[2], p), DDiv(q[3], p), DNeg(DDiv(q[1], p))>>
Upwind(u, a, b) == IF DLt(u, DInt(0)) THEN DMul(u, b) ELSE DMul(u, a)
FarFlux(b, far) ==
  LET u == DDiv(DAdd(DMul(b.n[1], far[2]), DMul(b.n[2], far[3])), far[1])  p == Pressure(b.q)
  IN [j \in 1..4 |-> DAdd(Upwind(u, b.q[j], far[j]), IF j = 1 THEN DInt(0) ELSE IF j = 4 THEN Upwind(u, p, Pressure(far)) ELSE DMul(b.n[j - 1], p))]
Supplied(b, far) == DSub(DAdd(DMul(b.n[1], b.q[2]), DMul(b.n[2], b.q[3])), VDot(EntVar(b.q), FarFlux(b, far)))
\* ---- calls of a controller
Tol(v) == DMul(DDec("1e-10"), DAdd(One, DAbs(v)))
Terms(c, x) == SumOf(LAMBDA i : DAdd(DAbs(DMul(Rows(c)[i][1], x[1])), DAdd(DAbs(DMul(Rows(c)[i][2], x[2])), DAbs(Force(c)[i]))), 2)
LawTol(c, x) == LET g == DAbs(Gain(c)) IN DMul(DDec("1e-11"), DAdd(DAdd(One, Terms(c, x)),
                IF c.test THEN DInt(0) ELSE DMul(g, DAdd(DAdd(One, DAbs(RInv(EtaBeta(c)))), DAdd(DAbs(DDiv(Lag(c), EtaBeta(c))), DAdd(DAbs(c.par["Ti"]), DAbs(c.par["Td"])))))))
SizeTol(c, x, y) == DMul(DDec("1e-11"), DAdd(One, DMul(DMul(VNorm(x), VNorm(y)), DAdd(One, VNorm(c.P)))))
Alone == ctl.kind = "control"
SizesOk(e) == \A r \in 1..Len(e.size) : e.size[r] = IF r = 1 THEN 2 ELSE 0
ResOk(c, e) == Len(e.r) = 2 /\ \A i \in 1..2 : Near(e.r[i], Res(c, e.x)[i], LawTol(c, e.x))
VelTol(c, x) == DMul(DDec("1e-12"), DAdd(One, DAdd(DAbs(Vel(c, x)), DAbs(x[2]))))
JOk(c, e) == /\ Len(e.J) = 2
             /\ \A i, j \in 1..2 : DClose(e.J[j][i], Rows(c)[i][j], DDec("1e-12"), DInt(0))
Unit(i, j) == IF i = j THEN One ELSE DInt(0)
Everyone(s) == \A r \in 1..Len(s) : s[r]
\* ---- calls of the coupled system; the part of its flow
Mixed(c, f0, f1, v) == DAdd(f0, DMul(v, DSub(f1, f0)))
MixTol(f0, f1, v, s) == DMul(DDec("1e-10"), DAdd(DAdd(One, s), DMul(DAdd(One, DAbs(v)), DAdd(DAbs(f0), DAbs(f1)))))
FlowOk(c, e, v) ==
  \A j \in 1..4 :
    /\ Len(e.R[j]) = Len(e.F0[j])
    /\ LET big == DAdd(VNorm(e.F0[j]), VNorm(e.F1[j])) IN
       /\ \A i \in 1..Len(e.R[j]) : Near(e.R[j][i], Mixed(c, e.F0[j][i], e.F1[j][i], v), MixTol(e.F0[j][i], e.F1[j][i], v, big))
       /\ Near(DSub(VSum(e.F1[j]), VSum(e.F0[j])), Carried(c, e, j), DMul(DDec("1e-10"), DAdd(One, big)))
Whole == ctl.p.ranks = 1 \/ ctl.p.basis = "csbp"
ChangeOk(c, e, v) ==
  LET g == IF Whole THEN DAdd(Mixed(c, e.C0, e.C1, v), Growth(c, e.x, e.d)) ELSE DInt(0)
      t == DMul(DDec("1e-9"), DAdd(DAdd(One, DMul(DAdd(One, DAbs(v)), DAdd(DAbs(e.C0), DAbs(e.C1)))), DMul(DMul(VNorm(e.x), VNorm(e.d)), DAdd(One, VNorm(c.P)))))
  IN /\ (Whole => All(e.v, g, t))
     /\ (ctl.p.flux = "IR" /\ Whole => Near(DSub(e.C1, e.C0), Exported(c, e), DMul(DDec("1e-9"), DAdd(One, DAdd(DAbs(e.C0), DAbs(e.C1))))))
Measure(in, e) == Measured(Update(ctl, in), e)
CoupledCall(e) == Coupled(e.in, e.x, Measure(e.in, e))
StateOf(c) == c
TNext ==
  \/ Is("Reset") /\ ctl' = None
  \/ Is("New") /\ New(Ev.p)
  \/ Is("Give") /\ Call(Ev.in) /\ (Alone => SizesOk(Ev))
  \/ Is("BadP") /\ Alone /\ UNCHANGED ctl /\ Ev.threw[1]
  \/ Is("Refused") /\ Has /\ UNCHANGED ctl /\ Everyone(Ev.threw)
  \/ Is("Unsupported") /\ Has /\ UNCHANGED ctl /\ Everyone(Ev.threw)
       /\ \A r \in 1..ctl.p.ranks : Ev.sizes[2 * r - 1] - Ev.sizes[2 * r] = IF r = 1 THEN 2 ELSE 0
  \/ Is("BadBlock") /\ Has /\ UNCHANGED ctl /\ Everyone(Ev.threw)
  \/ Is("Velocity") /\ Alone /\ Call(Ev.in) /\ All(Ev.v, Vel(ctl', Ev.x), VelTol(ctl', Ev.x))
  \/ Is("Evaluate") /\ Alone /\ Call(Ev.in) /\ ResOk(ctl', Ev)
  \/ Is("Evaluate") /\ ~Alone /\ CoupledCall(Ev) /\ ResOk(ctl', Ev) /\ FlowOk(ctl', Ev, ctl'.vel)
  \/ Is("Entropy") /\ Alone /\ Call(Ev.in) /\ All(Ev.v, Storage(ctl', Ev.x), SizeTol(ctl', Ev.x, Ev.x))
  \/ (Is("Entropy") \/ Is("Output")) /\ ~Alone /\ Call(Ev.in)
       /\ LET s == DAdd(Ev.flow, Storage(ctl', Ev.x)) IN All(Ev.v, s, DAdd(SizeTol(ctl', Ev.x, Ev.x), Tol(Ev.flow)))
  \/ Is("Change") /\ Alone /\ Call(Ev.in) /\ All(Ev.v, Growth(ctl', Ev.x, Ev.d), SizeTol(ctl', Ev.x, Ev.d))
  \/ Is("Change") /\ ~Alone /\ CoupledCall(Ev) /\ ChangeOk(ctl', Ev, ctl'.vel)
  \/ Is("Supply") /\ ~Alone /\ UNCHANGED ctl
       /\ LET v == Over(Ev, FarField(Ev), LAMBDA b : Supplied(b, Ev.far))
              s == Over(Ev, FarField(Ev), LAMBDA b : DAdd(DAbs(Supplied(b, Ev.far)), VNorm(b.n)))
          IN All(Ev.v, v, DMul(DDec("1e-9"), DAdd(One, DAbs(s))))
  \/ Is("Mass") /\ ~Alone /\ UNCHANGED ctl /\ Ev.Mx = Ev.x /\ VClose(Ev.Mu, Ev.flow, DDec("1e-13"), DDec("1e-15"))
  \/ Is("Jacobian") /\ Alone /\ Call(Ev.in) /\ JOk(ctl', Ev)
       /\ \A i, j \in 1..2 : Near(Ev.M[j][i], Unit(i, j), DInt(0)) /\ Near(Ev.PJ[j][i], Unit(i, j), DDec("1e-6"))
  \/ Is("Jacobian") /\ ~Alone /\ Call(Ev.in) /\ JOk(ctl', Ev)
       /\ LET v == ctl'.vel  big == DAdd(VNorm(Ev.J0), VNorm(Ev.J1)) IN
          \A i \in 1..Len(Ev.Jv) : Near(Ev.Jv[i], Mixed(ctl', Ev.J0[i], Ev.J1[i], v), MixTol(Ev.J0[i], Ev.J1[i], v, big))
  \/ Is("End") /\ UNCHANGED ctl
TSpec == TInit /\ [][TNext]_<<ctl, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
