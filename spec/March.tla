------------------------------- MODULE March -------------------------------
(***************************************************************************)
(* The time-marching loop of AbstractSolver2::solveForState, the steady     *)
(* and adjoint solves, and what they log.                                   *)
(*   q    the problem: ode (unsteady?), type, t0, tf, dt, maxit, exact,     *)
(*        ownStep/ownExit (a derived class decides), logs = sequence of     *)
(*        [kind, init, each, final]                                         *)
(*   it,t,dt,st  steps taken, time, last step, state                        *)
(*   ks   the slopes the integrator's solver returned in this step          *)
(*   rec  every record in existence: <<kind,label,step>> -> <<time,state>>  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Zero, One,
          Add(_, _),
          BaseStep(_, _, _),     \* (q, t, d)  d is the library's own choice
          MayExit(_, _, _), MustExit(_, _, _),  \* (t, tf, dt)
          Advance(_, _, _, _, _),\* (type, x, dt, ks, y)
          Same(_, _), SameV(_, _)
VARIABLES q, ph, it, t, dt, st, ks, rec
vars == <<q, ph, it, t, dt, st, ks, rec>>
Init == /\ q = <<>> /\ ph = "idle" /\ it = 0 /\ t = Zero /\ dt = Zero
        /\ st = <<>> /\ ks = <<>> /\ rec = <<>>

Put(r, k, v) == [x \in DOMAIN r \cup {k} |-> IF x = k THEN v ELSE r[x]]
RECURSIVE PutAll(_, _, _, _, _, _)
\* one record by every logger whose option `sel' is on
PutAll(r, n, sel, label, step, v) ==
  IF n = 0 THEN r
  ELSE LET g == q.logs[n] IN
       PutAll(IF g[sel] THEN Put(r, <<g.kind, label, step>>, v) ELSE r,
              n - 1, sel, label, step, v)
Log(sel, label, step, tt, x) == PutAll(rec, Len(q.logs), sel, label, step, <<tt, x>>)

Begin(d, x) ==
  /\ ph = "idle" /\ q' = d /\ st' = x /\ it' = 0 /\ t' = d.t0 /\ dt' = Zero
  /\ ks' = <<>> /\ ph' = "initial" /\ UNCHANGED rec

InitialHook(x) ==
  /\ ph = "initial" /\ SameV(x, st)
  /\ rec' = Log("init", "state", 0, t, st)
  /\ ph' = IF ~q.ode THEN "newton" ELSE IF q.maxit = 0 THEN "last" ELSE "size"
  /\ UNCHANGED <<q, it, t, dt, st, ks>>

StepSize(i, tt, tf, dold, x, d) ==
  /\ ph = "size" /\ i = it /\ Same(tt, t) /\ Same(tf, q.tf) /\ Same(dold, dt) /\ SameV(x, st)
  /\ q.ownStep \/ BaseStep(q, t, d)
  /\ dt' = d /\ ph' = "iterate"
  /\ UNCHANGED <<q, it, t, st, ks, rec>>

IterationHook(i, tt, d, x) ==
  /\ ph = "iterate" /\ i = it /\ Same(tt, t) /\ Same(d, dt) /\ SameV(x, st)
  /\ rec' = Log("each", "state", it, t, st)
  /\ ph' = "advance" /\ ks' = <<>>
  /\ UNCHANGED <<q, it, t, dt, st>>

Slope(k) ==
  /\ ph = "advance" /\ ks' = Append(ks, k)
  /\ UNCHANGED <<q, ph, it, t, dt, st, rec>>

Exit(i, tt, tf, d, x, stop) ==
  /\ ph = "advance" /\ i = it /\ Same(tf, q.tf) /\ Same(d, dt)
  /\ Advance(q.type, st, dt, ks, x) /\ st' = x
  /\ Same(tt, Add(t, dt)) /\ t' = tt
  /\ q.ownExit \/ (IF stop THEN MayExit(tt, q.tf, dt) ELSE ~MustExit(tt, q.tf, dt))
  /\ it' = it + 1
  /\ ph' = IF stop \/ it + 1 = q.maxit THEN "last" ELSE "size"
  /\ UNCHANGED <<q, dt, ks, rec>>

\* the final record is labelled with the number of steps taken
TerminalHook(i, tt, x) ==
  /\ ph = "last" /\ i = it /\ Same(tt, t) /\ SameV(x, st)
  /\ rec' = Log("final", "state", it, t, st)
  /\ ph' = "return" /\ UNCHANGED <<q, it, t, dt, st, ks>>

\* steady: the given state is the initial guess
Newton(guess, x, y) ==
  /\ ph = "newton" /\ guess /\ SameV(x, st) /\ st' = y
  /\ rec' = Log("final", "state", 1, One, y)
  /\ ph' = "return" /\ UNCHANGED <<q, it, t, dt, ks>>

\* adjoint: the residual sets the system up, the linear solver solves it
BeginAdjoint(d, bar) ==
  /\ ph = "idle" /\ q' = d /\ st' = bar /\ ph' = "setup"
  /\ it' = 0 /\ t' = Zero /\ dt' = Zero /\ ks' = <<>> /\ UNCHANGED rec
SetUp(bar, rhs) ==
  /\ ph = "setup" /\ SameV(bar, st) /\ ks' = <<rhs>> /\ ph' = "adjoint"
  /\ UNCHANGED <<q, it, t, dt, st, rec>>
Always == [init |-> TRUE, each |-> TRUE, final |-> TRUE]
AdjointSolve(rhs, y) ==
  /\ ph = "adjoint" /\ SameV(rhs, ks[1]) /\ st' = y /\ ph' = "finalize"
  /\ UNCHANGED <<q, it, t, dt, ks, rec>>
\* the residual completes the solution; the completed adjoint is recorded
FinalizeAdjoint(rhs, x, y) ==
  /\ ph = "finalize" /\ SameV(rhs, ks[1]) /\ SameV(x, st) /\ st' = y
  /\ rec' = LET RECURSIVE P(_, _)
                P(r, n) == IF n = 0 THEN r
                           ELSE P(Put(r, <<q.logs[n].kind, "adjoint", 0>>, <<Zero, y>>), n - 1) IN
            P(rec, Len(q.logs))
  /\ ph' = "return" /\ UNCHANGED <<q, it, t, dt, ks>>

\* what the caller gets, and every record there is
Return(x, rs) ==
  /\ ph = "return" /\ SameV(x, st)
  /\ \A k \in DOMAIN rec : \E i \in 1..Len(rs) : rs[i].key = k
  /\ \A i \in 1..Len(rs) : /\ rs[i].key \in DOMAIN rec
                           /\ Same(rs[i].time, rec[rs[i].key][1])
                           /\ SameV(rs[i].state, rec[rs[i].key][2])
  /\ ph' = "idle" /\ UNCHANGED <<q, it, t, dt, st, ks, rec>>
Reset == ph = "idle" /\ rec' = <<>> /\ UNCHANGED <<q, ph, it, t, dt, st, ks>>
=============================================================================
