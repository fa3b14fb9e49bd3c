----------------------------- MODULE RootFinder -----------------------------
(***************************************************************************)
(* Scalar root finders (bisection and secant in src/utils/utils.cpp)       *)
(* against an arbitrary function; one action per evaluation and one for    *)
(* the outcome.                                                            *)
(*  ev      points evaluated, as <<x, f(x)>>, in order                     *)
(*  bisection: br = <<left, right>>, the bracket, a sign change of f; every*)
(*             further point halves it                                     *)
(*  secant:    pr = <<older, newer>>, the pair the next point is computed  *)
(*             from; starts with the better initial point as the newer     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Neg(_), NonNeg(_), NonPos(_),  \* signs; all FALSE for a NaN
          SmallF(_, _), SureF(_, _),     \* (f, tol): |f| may / must count as <= tol
          NarrowX(_, _, _),              \* (x, y, tol): |x - y| may count as <= tol
          SureX(_, _, _),
          Mid(_, _, _),                  \* (x, y, z): z is their midpoint
          SecantPoint(_, _, _),          \* (older, newer, x)
          Smaller(_, _),                 \* (f, g): |f| < |g|
          NaN(_), Same(_, _)

VARIABLES q, ph, ev, br, pr
vars == <<q, ph, ev, br, pr>>
Init == q = <<>> /\ ph = "idle" /\ ev = <<>> /\ br = <<>> /\ pr = <<>>
LastP == ev[Len(ev)]

Begin(d) == ph = "idle" /\ q' = d /\ ph' = "ends" /\ ev' = <<>> /\ br' = <<>> /\ pr' = <<>>

SignChange(f, g) == (NonPos(f) /\ NonNeg(g)) \/ (NonNeg(f) /\ NonPos(g))

\* the two given points, in either order
EvalEnd(x, f) ==
  /\ ph = "ends" /\ Len(ev) < 2
  /\ IF ev = <<>> THEN Same(x, q.x1) \/ Same(x, q.x2)
     ELSE \/ Same(ev[1][1], q.x1) /\ Same(x, q.x2)
          \/ Same(ev[1][1], q.x2) /\ Same(x, q.x1)
  /\ ev' = Append(ev, <<x, f>>)
  /\ IF Len(ev) = 0 THEN UNCHANGED <<ph, br, pr>>
     ELSE LET e1 == IF Same(ev[1][1], q.x1) THEN ev[1] ELSE <<x, f>>
              e2 == IF Same(ev[1][1], q.x1) THEN <<x, f>> ELSE ev[1] IN
          IF q.kind = "bisection"
          THEN /\ ph' = IF ~SignChange(e1[2], e2[2]) THEN "reject" ELSE "go"
               /\ br' = <<e1, e2>> /\ UNCHANGED pr
          ELSE /\ ph' = "go" /\ UNCHANGED br
               /\ pr' = IF Smaller(e1[2], e2[2]) THEN <<e2, e1>> ELSE <<e1, e2>>
  /\ UNCHANGED q

Used == Len(ev) - 2                  \* points beyond the two given ones

(* bisection ----------------------------------------------------------- *)
\* after evaluating the midpoint m, the half that keeps the sign change
Halve(b, m) == IF Neg(m[2]) = Neg(b[1][2]) THEN <<m, b[2]>> ELSE <<b[1], m>>
BisectDone(may) ==
  LET small(e) == IF may THEN SmallF(e[2], q.ftol) ELSE SureF(e[2], q.ftol)
      narrow(b) == IF may THEN NarrowX(b[1][1], b[2][1], q.xtol) ELSE SureX(b[1][1], b[2][1], q.xtol) IN
  IF Used = 0 THEN small(br[1]) \/ small(br[2])
  ELSE small(LastP) \/ (narrow(br) /\ ~NaN(LastP[2]))
EvalMid(x, f) ==
  /\ ph = "go" /\ q.kind = "bisection"
  /\ ~BisectDone(FALSE) /\ Used <= q.maxit
  /\ Used > 0 => ~NaN(LastP[2])
  /\ LET b == IF Used = 0 THEN br ELSE Halve(br, LastP) IN
       Mid(b[1][1], b[2][1], x) /\ br' = b
  /\ ev' = Append(ev, <<x, f>>)
  /\ UNCHANGED <<q, ph, pr>>

(* secant --------------------------------------------------------------- *)
SecantDone(may) ==
  LET small(e) == IF may THEN SmallF(e[2], q.ftol) ELSE SureF(e[2], q.ftol)
      narrow == IF may THEN NarrowX(pr[1][1], pr[2][1], q.xtol) ELSE SureX(pr[1][1], pr[2][1], q.xtol) IN
  small(pr[2]) \/ (Used > 0 /\ narrow /\ ~NaN(pr[2][2]))
EvalSecant(x, f) ==
  /\ ph = "go" /\ q.kind = "secant"
  /\ ~SecantDone(FALSE) /\ Used < q.maxit
  /\ SecantPoint(pr[1], pr[2], x)
  /\ pr' = <<pr[2], <<x, f>>>>
  /\ ev' = Append(ev, <<x, f>>)
  /\ UNCHANGED <<q, ph, br>>

Eval(x, f) == EvalEnd(x, f) \/ EvalMid(x, f) \/ EvalSecant(x, f)

\* a point is returned only when it has converged
Found(x) ==
  /\ ph = "go" /\ ph' = "idle"
  /\ IF q.kind = "bisection"
     THEN /\ BisectDone(TRUE)
          /\ IF Used = 0 THEN \E i \in 1..2 : Same(x, br[i][1]) /\ SmallF(br[i][2], q.ftol)
             ELSE Same(x, LastP[1])
     ELSE SecantDone(TRUE) /\ Same(x, pr[2][1])
  /\ UNCHANGED <<q, ev, br, pr>>

\* failure is reported only when there was nothing to return
Failed ==
  /\ ph' = "idle"
  /\ \/ ph = "reject"
     \/ /\ ph = "go"
        /\ IF q.kind = "bisection"
           THEN ~BisectDone(FALSE) /\ (Used > q.maxit \/ NaN(LastP[2]))
           ELSE ~SecantDone(FALSE) /\ (Used >= q.maxit \/ NaN(pr[2][2]) \/ NaN(pr[1][2]))
  /\ UNCHANGED <<q, ev, br, pr>>
=============================================================================
