-------------------------------- MODULE TimeRes --------------------------------
(***************************************************************************)
(* The residual of one implicit (dt # 0) or explicit (dt = 0) stage, for    *)
(* the unknown increment k = state_dot:                                     *)
(*      F(k) = M k + R(state + dt k, time, p)                               *)
(* with R the spatial residual of ResModel.  Vectors given as inputs are    *)
(* referred to, not copied: F is taken at their present values.             *)
(***************************************************************************)
EXTENDS ResModel
VARIABLES def,   \* [P, M, mk (kind of mass: "none", "hypre", "block")], or <<>>
          slot,  \* caller's vectors
          st, sd, dt, time, p   \* what was last set: slots and numbers
vars == <<def, slot, st, sd, dt, time, p>>
Init == def = <<>> /\ slot = <<>> /\ st = "" /\ sd = "" /\ dt = N0 /\ time = N0 /\ p = N0
New(P, M, mk) == def' = [P |-> P, M |-> M, mk |-> mk] /\ slot' = <<>> /\ st' = "" /\ sd' = "" /\ dt' = N0 /\ time' = N0 /\ p' = N0
Vec(s, v) == slot' = [z \in DOMAIN slot \cup {s} |-> IF z = s THEN v ELSE slot[z]] /\ UNCHANGED <<def, st, sd, dt, time, p>>
Given(in, k) == k \in DOMAIN in
Set(in) ==
  /\ st' = (IF Given(in, "state") THEN in.state ELSE st) /\ sd' = (IF Given(in, "state_dot") THEN in.state_dot ELSE sd)
  /\ dt' = (IF Given(in, "dt") THEN in.dt ELSE dt) /\ time' = (IF Given(in, "time") THEN in.time ELSE time)
  /\ p' = (IF Given(in, "p") THEN in.p ELSE p) /\ UNCHANGED <<def, slot>>
U == slot[st]
K == slot[sd]
At == IF DEq(dt, N0) THEN U ELSE VAxpy(dt, K, U)
F == VAdd(RVal(def.P, At, time, p), MatVec(def.M, K))
FTol == DMul(DDec("1e-14"), DAdd(DAdd(RMag(def.P, At, time, p),
          DMul(DAdd(Big(def.P.A), DMul(DInt(3), DMul(DAbs(def.P.c), DMul(VNormInf(At), VNormInf(At))))),
               DAdd(VNormInf(U), DMul(DAbs(dt), VNormInf(K))))), DMul(Big(def.M), VNormInf(K))))
Kept(after) == \A s \in DOMAIN slot : VSame(after[s], slot[s])
Eval(r, after) == Kept(after) /\ Len(r) = Len(K) /\ VClose(r, F, N0, FTol) /\ UNCHANGED vars
\* y = J x; the spatial Jacobian is either stored or (block mass) matrix free
J(x) == IF DEq(dt, N0) THEN MatVec(def.M, x) ELSE VAdd(MatVec(def.M, x), VScale(dt, RJac(def.P, At, x)))
Step(x) == LET q == VDot(x, x) IN IF DLt(DDec("1e-6"), q) THEN DSqrt(DDiv(DDec("1e-10"), q)) ELSE DDec("1e-7")
FDErr(x) ==
  LET e == Step(x)  m == VNormInf(At)  z == DMul(e, VNormInf(x)) IN
  DMul(DAbs(dt),
    DAdd(DMul(DInt(3), DMul(DMul(DAbs(def.P.c), DAdd(DMul(DInt(3), m), z)), DMul(z, VNormInf(x)))),
         DDiv(DMul(DDec("4e-15"), DAdd(DAdd(RMag(def.P, At, time, p), JMag(def.P, At, VScale(e, x))), m)), e)))
JTol(x) ==
  DAdd(IF def.mk = "block" /\ ~DEq(dt, N0) THEN FDErr(x) ELSE N0,
       DMul(DDec("1e-13"), DAdd(DMul(Big(def.M), VNormInf(x)), DMul(DAbs(dt), DAdd(JMag(def.P, At, x),
            DMul(DMul(DMul(DInt(6), DAbs(def.P.c)), VNormInf(x)), DMul(VNormInf(At), DAdd(VNormInf(U), DMul(DAbs(dt), VNormInf(K))))))))))
Jac(x, y, after) == Kept(after) /\ Len(y) = Len(x) /\ VClose(y, J(x), N0, JTol(x)) /\ UNCHANGED vars
\* a spatial Jacobian of a kind that cannot be combined with the mass matrix
JacErr(err) == ~DEq(dt, N0) /\ def.mk = "mixed" /\ err = "MISOException" /\ UNCHANGED vars
\* everything else goes to the spatial residual: what came back is what it said
Forward(what, said, got) == said = got /\ UNCHANGED vars
=============================================================================
