------------------------------ MODULE MarchMC ------------------------------
EXTENDS March, Integers
VARIABLES hist   \* <<time, state>> before each step, and after the last one
MBase(p, tt, d) == d = IF p.exact /\ p.tf - tt < p.dt THEN p.tf - tt ELSE p.dt
MExit(tt, tf, d) == tt >= tf
MAdv(ty, x, d, k, y) == Len(k) = 1 /\ y = x + d * k[1]
MAdd(a, b) == a + b
MSame(a, b) == a = b
Bool == {TRUE, FALSE}
MCInit == Init /\ hist = <<>>
MCBegin == /\ ph = "idle" /\ q = <<>>
           /\ \E o \in Bool, d \in 1..2, tf \in 1..3, m \in 0..3, e \in Bool, s \in Bool, a, b, c \in Bool :
                Begin([ode |-> o, type |-> "RK1", t0 |-> 0, tf |-> tf, dt |-> d, maxit |-> m, exact |-> e,
                       ownStep |-> s, ownExit |-> FALSE, logs |-> <<[kind |-> "A", init |-> a, each |-> b, final |-> c]>>], 7)
           /\ hist' = <<>>
MCInitial == InitialHook(st) /\ hist' = <<<<t, st>>>>
MCSize == \E d \in 1..3 : StepSize(it, t, q.tf, dt, st, d) /\ UNCHANGED hist
MCIter == IterationHook(it, t, dt, st) /\ UNCHANGED hist
MCSlope == ph = "advance" /\ ks = <<>> /\ \E k \in 0..1 : Slope(k) /\ UNCHANGED hist
MCExit == ks # <<>> /\ \E r \in Bool : Exit(it, t + dt, q.tf, dt, st + dt * ks[1], r) /\ hist' = Append(hist, <<t', st'>>)
MCTerm == TerminalHook(it, t, st) /\ UNCHANGED hist
MCNewton == Newton(TRUE, st, 9) /\ hist' = Append(hist, <<1, 9>>)
MCDone == ph = "return" /\ ph' = "over" /\ UNCHANGED <<q, it, t, dt, st, ks, rec, hist>>
MCNext == MCBegin \/ MCInitial \/ MCSize \/ MCIter \/ MCSlope \/ MCExit \/ MCTerm \/ MCNewton \/ MCDone
mv == <<vars, hist>>
MCSpec == MCInit /\ [][MCNext]_mv /\ WF_mv(MCNext)
\* consequences the rules must have
RecordsTrue == \A k \in DOMAIN rec : rec[k] = hist[k[3] + 1]
Selected == ph = "return" =>
  LET g == q.logs[1] n == Len(hist) - 1
      steps == (IF g.init THEN {0} ELSE {}) \cup (IF g.each /\ q.ode THEN 0..(n-1) ELSE {})
               \cup (IF g.final THEN {n} ELSE {}) IN
  {k[3] : k \in DOMAIN rec} = steps
Increasing == \A i \in 1..(Len(hist)-1) : q.ode => hist[i][1] < hist[i+1][1]
NotPast == q # <<>> /\ q.exact /\ ~q.ownStep => t <= q.tf
Counted == q # <<>> => it <= q.maxit
Reached == ph = "return" /\ q.ode /\ it < q.maxit => t >= q.tf
Ends == <>(ph = "over")
=============================================================================
