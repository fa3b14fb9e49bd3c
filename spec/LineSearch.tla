------------------------------ MODULE LineSearch ----------------------------
(***************************************************************************)
(* Backtracking line search (src/common/linesearch.cpp) against an         *)
(* arbitrary merit function phi: one action per evaluation of phi and one  *)
(* for the return.  p holds the parameters of the search; hist the points  *)
(* evaluated so far, as <<step, merit value>>.                             *)
(*  - the first trial is the caller's step;                                *)
(*  - the search stops at the first trial with sufficient decrease and     *)
(*    returns exactly that step, so phi was last evaluated there;          *)
(*  - after an insufficient one it shrinks the step, within the            *)
(*    safeguards [rho_lo, rho_hi], to the minimizer of an interpolant;     *)
(*  - after p.maxit rejected trials more it gives up and returns Zero.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS May(_, _), Must(_, _),  \* (p, hist): the last trial decreases sufficiently;
                                  \* they differ only where rounding decides
          Safeguarded(_, _, _),   \* (p, last step, next step)
          Interpolated(_, _, _),  \* (p, hist, next step): the interpolation rule
          Zero

VARIABLES p, st, hist, res
vars == <<p, st, hist, res>>

Init == p = <<>> /\ st = "idle" /\ hist = <<>> /\ res = Zero

Last == hist[Len(hist)]
MaySuffice == May(p, hist)
MustSuffice == Must(p, hist)

Start(q) == /\ st = "idle"
            /\ st' = "run" /\ p' = q /\ hist' = <<>> /\ res' = Zero

NextTrial(a) ==
  IF hist = <<>> THEN a = p.alpha
  ELSE /\ ~MustSuffice
       /\ Len(hist) <= p.maxit
       /\ Safeguarded(p, Last[1], a)
       /\ Interpolated(p, hist, a)

Eval(a, f) == /\ st = "run" /\ NextTrial(a)
              /\ hist' = Append(hist, <<a, f>>)
              /\ UNCHANGED <<p, st, res>>

Return(r) == /\ st = "run" /\ hist # <<>>
             /\ \/ MaySuffice /\ r = Last[1]
                \/ ~MustSuffice /\ Len(hist) = p.maxit + 1 /\ r = Zero
             /\ st' = "idle" /\ res' = r /\ UNCHANGED <<p, hist>>
=============================================================================
