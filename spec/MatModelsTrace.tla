--------------------------- MODULE MatModelsTrace ---------------------------
\* Binds MatModels to recorded values: a model is a formula in the states,
\* written in jets, so the derivatives asked for are those of the formula.
EXTENDS MatModels, Jets, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Nu0 == DDiv(DInt(1), DMul(DDec("4e-7"), DDec("3.14159265358979311600")))
One == DInt(1)
TDefault(k) == CASE k = "sigma" -> DDec("58.14e6") [] k = "nu" -> Nu0 [] k = "br" -> DDec("1.39")
                 [] k \in {"bknee", "demag"} -> DInt(0) [] OTHER -> One
Or(r, p, d) == IF p \in DOMAIN r THEN r[p] ELSE d
TConst(k, props) == CASE k = "sigma" -> Or(props, "sigma", TDefault(k)) [] k = "nu" -> DDiv(Nu0, Or(props, "mu_r", One))
                      [] k = "kh" -> Or(props, "kh", One) [] k = "ke" -> Or(props, "ke", One) [] OTHER -> DInt(0)
TParams(k, m) == CASE m = "linear" -> {"alpha_resistivity", "T_ref", "sigma_T_ref"}
                   [] m \in {"lognu", "bh"} -> {"cps", "knots", "degree"}
                   [] m = "br" -> {"alpha_B_r", "T_ref", "B_r_T_ref"}
                   [] m = "Demag" -> {"alpha_B_knee", "beta_B_knee"}
                        \cup (IF k = "demag" THEN {"T0", "alpha_B_r", "B_r_T0", "alpha_H_ci", "H_ci_T0", "alpha_H_knee", "beta_H_knee"} ELSE {})
                   [] m = "CAL2" -> {"T0", "T1"} \cup (IF k = "kh" THEN {"kh_T0", "kh_T1"} ELSE {"ke_T0", "ke_T1"})
TParamDefault(p) == CASE p = "degree" -> 3 [] p = "alpha_B_r" -> DDec("-0.12") [] p = "T_ref" -> DDec("293.15") [] p = "B_r_T_ref" -> DDec("1.39")
States(k) == CASE k = "demag" -> 2 [] k \in {"kh", "ke"} -> 3 [] OTHER -> 1
\* the linear law a (1 + c (x - x0)), c in percent
Percent(a, c, x, x0) == JScale(a, JAdd(JC(One), JScale(DDiv(c, DInt(100)), JSub(x, JC(x0)))))
Line(a, b, x) == JAdd(JScale(a, x), JC(b))
LogNu(P, B) == LET bmax == P.knots[Len(P.knots)] IN
   IF DLe(B.v, bmax) THEN JExp(JSpline(P.cps, P.knots, P.degree, B)) ELSE JC(Nu0)
\* H(B) / B; at B = 0 its limit, of a curve through the origin
BH(P, B) == LET bmax == P.knots[Len(P.knots)]  hmax == P.cps[Len(P.cps)] IN
   IF DLe(B.v, DDec("1e-14"))
   THEN JChain(B, DSpline(P.cps, P.knots, P.degree, B.v, 1), DDiv(DSpline(P.cps, P.knots, P.degree, B.v, 2), DInt(2)),
               DDiv(DSpline(P.cps, P.knots, P.degree, B.v, 3), DInt(3)))
   ELSE IF DLe(B.v, bmax) THEN JDiv(JSpline(P.cps, P.knots, P.degree, B), B)
   ELSE JAdd(JC(Nu0), JDiv(JC(DSub(hmax, DMul(Nu0, bmax))), B))
Constraint(P, B, T) ==
   LET Bk == Line(P.alpha_B_knee, P.beta_B_knee, T)   Hk == Line(P.alpha_H_knee, P.beta_H_knee, T)
       Br == Percent(P.B_r_T0, P.alpha_B_r, T, P.T0)  Hc == Percent(P.H_ci_T0, P.alpha_H_ci, T, P.T0)
       s == JDiv(Hk, JSub(Bk, Br)) IN
   JSub(JMul(JSub(s, JDiv(JSub(Hk, Hc), Bk)), B), JAdd(Hc, JMul(Br, s)))
Between(P, k0, k1, T, B) == LET a == JPoly(k0, B)  b == JPoly(k1, B) IN
   JAdd(a, JMul(JScale(DDiv(One, DSub(P.T1, P.T0)), JSub(T, JC(P.T0))), JSub(b, a)))
Jet(m, s) ==
   LET x(i) == JVar(s[i], i)  P == m[2] IN
   CASE m[1] = "const" -> JC(m[2])
     [] m[1] = "linear" -> JDiv(JC(P.sigma_T_ref), JAdd(JC(One), JScale(P.alpha_resistivity, JSub(x(1), JC(P.T_ref)))))
     [] m[1] = "lognu" -> LogNu(P, x(1))
     [] m[1] = "bh" -> BH(P, x(1))
     [] m[1] = "br" -> Percent(P.B_r_T_ref, P.alpha_B_r, x(1), P.T_ref)
     [] m[1] = "Demag" -> IF kind = "bknee" THEN Line(P.alpha_B_knee, P.beta_B_knee, x(1)) ELSE Constraint(P, x(1), x(2))
     [] m[1] = "CAL2" -> IF kind = "kh" THEN Between(P, P.kh_T0, P.kh_T1, x(1), x(3)) ELSE Between(P, P.ke_T0, P.ke_T1, x(1), x(3))
Top(v) == VNormInf(v)
Close(a, b, s) == DClose(a, b, DDec("1e-7"), DMul(DDec("1e-13"), s))
N_(e) == Len(e.s)
\* what dividing by a small flux density does to roundoff
Amp(m, s) == IF m[1] = "bh" /\ DLt(DDec("1e-14"), s[1]) THEN DMax(One, DDiv(One, DMul(s[1], s[1]))) ELSE One
Flat(j, n) == <<j.v>> \o [i \in 1..n |-> j.g[i]] \o [k \in 1..(n * n) |-> j.h[((k - 1) \div n) + 1][((k - 1) % n) + 1]]
EvalOk(e) == LET n == N_(e) IN n = States(kind) /\ Eval(e.attr, LAMBDA m : LET j == Jet(m, e.s)  s == DMul(Amp(m, e.s), Top(Flat(j, n))) IN
   /\ Close(e.v, j.v, s)
   /\ Len(e.d) = n /\ \A i \in 1..n : Close(e.d[i], j.g[i], s) /\ \A k \in 1..n : Close(e.dd[i][k], j.h[i][k], s))
PlainOk(e) == Eval(e.attr, LAMBDA m : LET j == Jet(m, [i \in 1..States(kind) |-> DInt(0)]) IN Close(e.v, j.v, j.v))
\* coefficient * (coefficient * b) on attributes 1 and 2, coefficient * w or nothing elsewhere
VecOk(e) == Eval(e.attr, LAMBDA m :
   LET j == Jet(m, e.s)  q == IF e.attr \in {1, 2} THEN JMul(j, j) ELSE IF e.dflt THEN j ELSE JC(Z)
       b == IF e.attr \in {1, 2} THEN e.b ELSE e.w IN
   \A i \in 1..Len(b) : /\ Close(e.v[i], DMul(q.v, b[i]), DMul(q.v, b[i])) /\ Close(e.d[i], DMul(q.g[1], b[i]), DMul(q.v, b[i])))
ContOk(e) == Eval(e.attr, LAMBDA m :
   LET j == Jet(m, e.s)  q == JAdd(JC(DMul(DSub(One, lambda), e.lin)), JScale(lambda, j))  s == DAdd(DAbs(e.lin), DAbs(j.v)) IN
   Close(e.v, q.v, s) /\ Close(e.d, q.g[1], s))
TInit == kind = "" /\ map = <<>> /\ lambda = DInt(0) /\ l = 1
TNext ==
  \/ Is("Reset") /\ kind' = "" /\ map' = <<>> /\ lambda' = DInt(0)
  \/ Is("Build") /\ Build(Ev.kind, Ev.comps, Ev.res)
  \/ Is("Lambda") /\ SetLambda(Ev.v) /\ Ev.got = Ev.v
  \/ Is("Eval") /\ EvalOk(Ev)
  \/ Is("Plain") /\ PlainOk(Ev)
  \/ Is("Vec") /\ VecOk(Ev)
  \/ Is("Cont") /\ ContOk(Ev)
  \/ Is("End") /\ UNCHANGED mmvars
TSpec == TInit /\ [][TNext]_<<mmvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
