---------------------------- MODULE FlowControl ----------------------------
(***************************************************************************)
(* Boundary flow control.  A controller with two states x acts on a flow   *)
(* through a blowing velocity u on part of the boundary; it sees the       *)
(* weighted entropy `be` of that boundary.  Closed loop, with the error    *)
(* e = target - be, it is the passive PID controller                       *)
(*    U(s) / E(s) = Kp beta (1 + Ti s)(1 + Td s)                           *)
(*                  / ((1 + beta Ti s)(1 + eta Td s));                     *)
(* open loop the error plays no part.  The `test' controller is a rotation *)
(* driven by be.  Residuals are written on the left: dx/dt + r = 0.        *)
(* The law is stated over any field: IEEE numbers when traces are checked, *)
(* a finite field when TLC checks the law itself.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Plus(_, _), Times(_, _), Minus(_), Recip(_), Num(_), Twentieth, OpenLoop(_)
VARIABLE ctl
None == [kind |-> "none"]
\* what is given by name in any call, and stays given
Names == {"Kp", "Td", "Ti", "beta", "eta", "target-entropy", "boundary-entropy"}
Fresh(p) == [kind |-> p.kind, p |-> p, test |-> p.test, par |-> [n \in Names |-> Num(0)], closed |-> TRUE,
             P |-> <<Num(0), Num(0), Num(0)>>, act |-> <<>>, vel |-> Num(0)]
New(p) == ctl' = Fresh(p)
Update(c, in) ==
  [c EXCEPT !.par = [n \in Names |-> IF n \in DOMAIN in THEN in[n] ELSE c.par[n]],
            !.closed = IF "closed-loop" \in DOMAIN in THEN ~OpenLoop(in["closed-loop"]) ELSE c.closed,
            !.P = IF "P-matrix" \in DOMAIN in THEN <<in["P-matrix"][1], in["P-matrix"][2], in["P-matrix"][4]>> ELSE c.P,
            !.act = IF "x-actuator" \in DOMAIN in THEN in["x-actuator"] ELSE c.act]
With(c, be) == [c EXCEPT !.par["boundary-entropy"] = be]
Sub(a, b) == Plus(a, Minus(b))
Div(a, b) == Times(a, Recip(b))
Prod3(a, b, d) == Times(Times(a, b), d)
\* ---- the law
Err(c) == IF c.closed THEN Sub(c.par["target-entropy"], c.par["boundary-entropy"]) ELSE Num(0)
Lag(c) == Plus(Times(c.par["beta"], c.par["Ti"]), Times(c.par["eta"], c.par["Td"]))
Fac(c) == Recip(Times(Times(c.par["beta"], c.par["eta"]), Times(c.par["Ti"], c.par["Td"])))
Gain(c) == Div(Times(Err(c), c.par["Kp"]), Prod3(c.par["eta"], c.par["Ti"], c.par["Td"]))
EtaBeta(c) == Times(c.par["eta"], c.par["beta"])
Rows(c) == IF c.test THEN <<<<Num(0), Minus(Twentieth)>>, <<Twentieth, Num(0)>>>>
           ELSE <<<<Num(0), Fac(c)>>, <<Minus(Num(1)), Times(Fac(c), Lag(c))>>>>
Force(c) == IF c.test THEN <<Num(0), c.par["boundary-entropy"]>>
            ELSE <<Times(Sub(Recip(EtaBeta(c)), Num(1)), Gain(c)),
                   Times(Sub(Div(Lag(c), EtaBeta(c)), Plus(c.par["Ti"], c.par["Td"])), Gain(c))>>
Res(c, x) == [i \in 1..2 |-> Plus(Plus(Times(Rows(c)[i][1], x[1]), Times(Rows(c)[i][2], x[2])), Force(c)[i])]
Vel(c, x) == IF c.test THEN x[2] ELSE Plus(x[2], Div(Times(c.par["Kp"], Err(c)), c.par["eta"]))
\* ---- the storage function x.P x / 2, and how fast it grows when dx/dt = -d
Inner(c, x, y) == IF c.test THEN Plus(Times(x[1], y[1]), Times(x[2], y[2]))
                  ELSE Plus(Times(y[1], Plus(Times(c.P[1], x[1]), Times(c.P[2], x[2]))),
                            Times(y[2], Plus(Times(c.P[2], x[1]), Times(c.P[3], x[2]))))
Storage(c, x) == Div(Inner(c, x, x), Num(2))
Growth(c, x, d) == Minus(Inner(c, x, d))
\* ---- calls
Has == ctl.kind # "none"
Call(in) == Has /\ ctl' = Update(ctl, in)
\* the coupled system measures be itself, whatever it was told, and remembers the velocity
Coupled(in, x, be) == Has /\ ctl' = LET c == With(Update(ctl, in), be) IN [c EXCEPT !.vel = Vel(c, x)]
Init == ctl = None
=============================================================================
