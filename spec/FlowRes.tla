------------------------------ MODULE FlowRes ------------------------------
(***************************************************************************)
(* The spatial residual of the compressible flow equations: which          *)
(* guarantees a discretization gives.  A problem c is described by         *)
(*   dim, ev (entropy variables as states), flux "IR" (entropy             *)
(*   conservative) or "Euler", visc, basis "csbp" (continuous) or "dsbp",  *)
(*   deg, curved, lps, jump (stabilization coefficients nonzero) and bcs,  *)
(*   the kinds of boundary conditions; none means a periodic domain.       *)
(* A state is of a kind: "free" (the free stream everywhere), "uniform"    *)
(* (another constant), "wave", "wlinear" (continuous, the second with      *)
(* entropy variables linear in space), "smooth" (continuous), "random".    *)
(***************************************************************************)
EXTENDS Naturals
VARIABLE prob
NoProblem == [dim |-> 0]
Constant(st) == st \in {"free", "uniform"}
Continuous(st) == st # "random"
Closed(c) == c.bcs = {}
SlipWalls(c) == c.bcs = {"slip-wall"} /\ ~c.visc
\* with one node pair per direction the metric terms of a curved element are not resolved
Resolved(c) == ~(c.deg = 0 /\ c.curved /\ (c.visc \/ c.basis = "dsbp"))
\* a constant state is steady
Steady(c, st) == Resolved(c) /\ (\/ Constant(st) /\ Closed(c)
                                 \/ st = "free" /\ c.bcs \subseteq {"far-field"})
\* components (1: mass, ..., dim + 2: energy) whose total cannot change
Kept(c) == IF c.visc /\ ~Resolved(c) THEN {} ELSE IF Closed(c) THEN 1..(c.dim + 2) ELSE IF SlipWalls(c) THEN {1, c.dim + 2} ELSE {}
\* stabilization that acts on a state
LpsActs(c, st) == c.lps /\ ~Constant(st) /\ ~(st = "wlinear" /\ c.deg >= 1 /\ ~c.curved /\ ~Closed(c))
JumpActs(c, st) == c.basis = "dsbp" /\ c.jump /\ ~Continuous(st)
\* entropy: total rate of change w . R zero, or never of the wrong sign
EntropyFlux(c) == c.flux = "IR" /\ (Closed(c) \/ SlipWalls(c))
EntropyKept(c, st) == EntropyFlux(c) /\ ~LpsActs(c, st) /\ ~JumpActs(c, st) /\ (c.visc => Constant(st) /\ Resolved(c))
EntropyFalls(c) == EntropyFlux(c)
\* viscosity alone: the production is the one of the Navier-Stokes equations
Produces(c, st) == c.visc /\ EntropyFlux(c) /\ Closed(c) /\ ~c.curved /\ ~LpsActs(c, st)

Setup(c) == prob' = c
Ready == prob # NoProblem
Residual(st) == Ready /\ UNCHANGED prob
Jacobian(st) == Ready /\ UNCHANGED prob
OutputDeriv(st) == Ready /\ UNCHANGED prob
TimeStep(st) == Ready /\ UNCHANGED prob
L2Error(st) == Ready /\ UNCHANGED prob
Init == prob = NoProblem
=============================================================================
