----------------------------- MODULE FlowResMC -----------------------------
(***************************************************************************)
(* The guarantees follow from the form of the scheme.  A scalar law        *)
(* (Burgers) on N nodes, two-point elements, all numbers 12 times the real *)
(* ones: the entropy conservative flux, a central flux, jumps between      *)
(* elements, walls through which no entropy passes and a far field.        *)
(* Component 1 stands for what walls keep: they let mass through here, so  *)
(* only the closed case conserves.                                         *)
(***************************************************************************)
EXTENDS FlowRes, Integers, Sequences
CONSTANTS N, Max, Far
VARIABLES st, u, r
mv == <<prob, st, u, r>>
Nodes == 1..N
F(c, a, b) == IF c.flux = "IR" THEN 2 * (a * a + a * b + b * b) ELSE 3 * (a * a + b * b)
Bnd(c, a) == IF "slip-wall" \in c.bcs THEN 2 * a * a ELSE F(c, a, Far)
D(c, a, b) == IF c.lps THEN a - b ELSE 0          \* dissipation between neighbours
V(c, a, b) == IF c.visc THEN 12 * (a - b) ELSE 0
Out(c, x, i) == IF i < N THEN F(c, x[i], x[i + 1]) ELSE IF Closed(c) THEN F(c, x[N], x[1]) ELSE Bnd(c, x[N])
In(c, x, i) == IF i > 1 THEN F(c, x[i - 1], x[i]) ELSE IF Closed(c) THEN F(c, x[N], x[1]) ELSE Bnd(c, x[1])
Nb(c, i) == {j \in Nodes : j = i + 1 \/ j = i - 1 \/ (Closed(c) /\ {i, j} = {1, N})}
RECURSIVE SumSet(_, _)
SumSet(f(_), S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f(k) + SumSet(f, S \ {k})
Res(c, x) == [i \in Nodes |-> Out(c, x, i) - In(c, x, i) + SumSet(LAMBDA j : D(c, x[i], x[j]) + V(c, x[i], x[j]), Nb(c, i))]
Total(x) == SumSet(LAMBDA i : x[i], Nodes)
Dot(x, y) == SumSet(LAMBDA i : x[i] * y[i], Nodes)
Kind(x) == IF \A i \in Nodes : x[i] = Far THEN "free" ELSE IF \A i \in Nodes : x[i] = x[1] THEN "uniform" ELSE "random"
Configs == [dim : {1}, ev : {FALSE}, flux : {"IR", "Euler"}, visc : BOOLEAN, basis : {"csbp"}, deg : {1}, curved : {FALSE},
            lps : BOOLEAN, jump : {FALSE}, bcs : {{}, {"slip-wall"}, {"far-field"}}]
MCInit == Init /\ st = "none" /\ u = [i \in Nodes |-> 0] /\ r = [i \in Nodes |-> 0]
MCSetup == prob = NoProblem /\ (\E c \in Configs : Setup(c)) /\ UNCHANGED <<st, u, r>>
MCResidual == st = "none" /\ \E x \in [Nodes -> 0..Max] : Residual(Kind(x)) /\ u' = x /\ st' = Kind(x) /\ r' = Res(prob, x)
Next == MCSetup \/ MCResidual
MCSpec == MCInit /\ [][Next]_mv
Known == st # "none"
FreeStream == Known /\ Steady(prob, st) => \A i \in Nodes : r[i] = 0
Conservation == Known /\ Closed(prob) => Total(r) = 0
EntropyKeptInv == Known /\ EntropyKept(prob, st) => Dot(u, r) = 0
EntropyFallsInv == Known /\ EntropyFalls(prob) => Dot(u, r) >= 0
\* the production of viscosity and stabilization is that of the jumps
ProductionInv == Known /\ prob.visc /\ EntropyFlux(prob) =>
   2 * Dot(u, r) = SumSet(LAMBDA i : SumSet(LAMBDA j : (12 + IF prob.lps THEN 1 ELSE 0) * (u[i] - u[j]) * (u[i] - u[j]), Nb(prob, i)), Nodes)
\* the guarantees are not vacuous: a central flux and a far field break them
Base == [dim |-> 1, ev |-> FALSE, flux |-> "Euler", visc |-> FALSE, basis |-> "csbp", deg |-> 1, curved |-> FALSE, lps |-> FALSE, jump |-> FALSE, bcs |-> {}]
ASSUME \E x \in [Nodes -> 0..Max] : Dot(x, Res(Base, x)) < 0
ASSUME \E x \in [Nodes -> 0..Max] : Dot(x, Res([Base EXCEPT !.flux = "IR", !.bcs = {"far-field"}], x)) # 0
=============================================================================
