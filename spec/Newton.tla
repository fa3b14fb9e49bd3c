-------------------------------- MODULE Newton ------------------------------
(***************************************************************************)
(* Globalised Newton solvers (src/common/relaxed_newton.cpp with mfem's    *)
(* NewtonSolver::Mult, src/common/inexact_newton.cpp).  One action per     *)
(* residual evaluation, Jacobian request, linear solve and return.  The    *)
(* globalisation is the backtracking of LineSearch.tla, whose variables    *)
(* and actions are used unchanged:  p, st, hist, res.                      *)
(*                                                                         *)
(* q    the solve: kind, maxit, tolerances, right-hand side, globalisation *)
(* ph   "idle", "first" (residual at the start), "check" (at an accepted   *)
(*      state), "lin" (Jacobian taken), "search" (trying steps)            *)
(* x, r, n   accepted state, its residual F(x) - b and residual norm       *)
(* goal      norm at which the solve has converged                         *)
(* c, y, ry  Newton step; last trial state and its residual                *)
(* it        steps accepted so far                                         *)
(* An accepted trial is recognised by what happens next, so the accepted   *)
(* data as seen by the next action are CurX, CurR, CurN, CurIt.            *)
(***************************************************************************)
EXTENDS LineSearch

CONSTANTS Norm(_),             \* of a residual
          Rhs(_, _),           \* (q, F): F - b
          At(_, _, _, _),      \* (x, a, c, y): y is x - a c
          StepOf(_, _, _),     \* (x, c, y): the a with y = x - a c
          SameState(_, _),
          SameNorm(_, _),
          GoalOf(_, _),        \* (q, first norm)
          MayStop(_, _),       \* (norm, goal): tolerance met
          MustStop(_, _),
          Slope(_, _, _),      \* (r, J c, n): derivative of the norm along -c
          Finite(_)

VARIABLES q, ph, x, r, n, goal, c, y, ry, it
nvars == <<q, ph, x, r, n, goal, c, y, ry, it>>
all == <<vars, nvars>>

NInit == /\ Init /\ q = <<>> /\ ph = "idle" /\ x = <<>> /\ r = <<>> /\ n = <<>> /\ goal = <<>>
         /\ c = <<>> /\ y = <<>> /\ ry = <<>> /\ it = 0

Searched == ph = "search" /\ hist # <<>>
Taken == Searched /\ MaySuffice            \* the last trial may be the accepted one
CurX == IF Taken THEN y ELSE x
CurR == IF Taken THEN ry ELSE r
CurN == IF Taken THEN Norm(ry) ELSE n
CurIt == IF Taken THEN it + 1 ELSE it
AtCheck == ph = "check" \/ Taken

\* the globalisation returns its last trial, if this step is such a return
Settle == IF Taken THEN Return(Last[1]) ELSE UNCHANGED vars

NBegin(d, x0) == /\ ph = "idle"
                 /\ q' = d /\ ph' = "first" /\ x' = x0
                 /\ it' = 0 /\ UNCHANGED <<r, n, goal, c, y, ry>>
                 /\ UNCHANGED vars

FirstRes(z, F) == /\ ph = "first" /\ SameState(z, x)
                  /\ ph' = "check"
                  /\ r' = Rhs(q, F) /\ n' = Norm(Rhs(q, F)) /\ goal' = GoalOf(q, Norm(Rhs(q, F)))
                  /\ UNCHANGED <<q, x, c, y, ry, it>> /\ UNCHANGED vars

\* evaluating again where the residual is already known changes nothing
AgainRes(z, F) == /\ \/ AtCheck /\ SameState(z, CurX)
                     \/ ph = "lin" /\ SameState(z, x)
                  /\ UNCHANGED all

Jacobian(z) == /\ AtCheck
               /\ SameState(z, CurX)
               /\ ~MustStop(CurN, goal) /\ CurIt < q.maxit
               /\ ph' = "lin" /\ x' = CurX /\ r' = CurR /\ n' = CurN /\ it' = CurIt
               /\ UNCHANGED <<q, goal, c, y, ry>>
               /\ Settle

Solve(rhs, step, Jc, sp) ==
  /\ ph = "lin" /\ SameState(rhs, r)
  /\ ph' = "search" /\ c' = step
  /\ UNCHANGED <<q, x, r, n, goal, y, ry, it>>
  /\ Start(sp)

Trial(z, F) == /\ ph = "search" /\ (hist # <<>> => ~MustSuffice)
               /\ LET a == IF hist = <<>> THEN p.alpha ELSE StepOf(x, c, z) IN
                    /\ At(x, a, c, z)
                    /\ Eval(a, Norm(Rhs(q, F)))
               /\ y' = z /\ ry' = Rhs(q, F)
               /\ UNCHANGED <<q, ph, x, r, n, goal, c, it>>

\* what the solver reports: state, converged flag, iterations, norm
Done(z, conv, k, nn) ==
  /\ ph' = "idle"
  /\ \/ /\ AtCheck
        /\ SameState(z, CurX) /\ k = CurIt /\ SameNorm(nn, CurN)
        /\ \/ conv /\ MayStop(CurN, goal)
           \/ ~conv /\ ~MustStop(CurN, goal) /\ CurIt >= q.maxit
        /\ Settle
        /\ x' = CurX /\ n' = CurN /\ r' = CurR /\ it' = CurIt
        /\ UNCHANGED <<q, goal, c, y, ry>>
     \/ \* no acceptable step: back to the last accepted state, not converged
        /\ Searched /\ q.kind = "relaxed" /\ ~conv
        /\ Return(Zero)
        /\ SameState(z, x) /\ k = it /\ SameNorm(nn, n)
        /\ UNCHANGED <<q, x, r, n, goal, c, y, ry, it>>

\* the solver gives up with an error: only without an acceptable step, or
\* when the residual at the accepted state is not a number
Abort == /\ ph # "idle" /\ ph' = "idle"
         /\ \/ Searched /\ q.kind = "inexact" /\ ~MustSuffice /\ Len(hist) >= p.maxit
            \/ Searched /\ q.kind = "inexact" /\ Len(hist) = p.maxit + 1
            \/ AtCheck /\ ~Finite(CurN)
            \/ Searched /\ ~Finite(n)
         /\ st' = "idle" /\ UNCHANGED <<p, hist, res>>
         /\ UNCHANGED <<q, x, r, n, goal, c, y, ry, it>>
=============================================================================
