--------------------------- MODULE FlowControlMC ---------------------------
\* The law over the integers modulo a prime: it is the transfer function, the
\* growth is that of the storage function, what is given stays given.
EXTENDS FlowControl, Integers, TLC
CONSTANTS Q, Depth
VARIABLES last, k
F == 0..(Q - 1)
NZ == 1..(Q - 1)
FPlus(a, b) == (a + b) % Q
FTimes(a, b) == (a * b) % Q
FMinus(a) == (Q - a) % Q
Inv == [a \in F |-> IF a = 0 THEN 0 ELSE CHOOSE b \in F : (a * b) % Q = 1]
FRecip(a) == Inv[a]
FNum(i) == i % Q
FOpen(a) == a = 0
FTw == Inv[20 % Q]
vars == <<ctl, last, k>>
Par(kp, td, ti, b, et, t) == ("Kp" :> kp) @@ ("Td" :> td) @@ ("Ti" :> ti) @@ ("beta" :> b) @@ ("eta" :> et) @@ ("target-entropy" :> t)
MCInit == Init /\ last = <<>> /\ k = 0
MCNew == ctl = None /\ \E t \in BOOLEAN : New([kind |-> "control", test |-> t]) /\ UNCHANGED <<last, k>>
MCParams == Has /\ k = 0 /\ k' = 1 /\ \E kp \in {1, 3}, td, ti, b, et \in NZ :
              LET in == Par(kp, td, ti, b, et, 2) IN Call(in) /\ last' = in
MCGive == Has /\ k \in 1..Depth /\ ctl.par["Td"] = 2 /\ ctl.par["Ti"] = 3 /\ k' = k + 1 /\
          \E in \in {("Kp" :> 4), ("closed-loop" :> 0), ("closed-loop" :> 1), ("boundary-entropy" :> 3), ("beta" :> 4),
                     ("P-matrix" :> <<1, 2, 2, 3>>)} : Call(in) /\ last' = in @@ last
MCCoupled == Has /\ k \in 1..Depth /\ ctl.par["Td"] = 2 /\ ctl.par["Ti"] = 3 /\ k' = k + 1 /\ \E be \in {0, 3} :
               LET in == ("boundary-entropy" :> 1) IN Coupled(in, <<1, 2>>, be) /\ last' = ("boundary-entropy" :> be) @@ last
MCNext == MCNew \/ MCParams \/ MCGive \/ MCCoupled
MCSpec == MCInit /\ [][MCNext]_vars
\* with s + lambda: det = s^2 + Fac Lag s + Fac; (s I + A)^-1 second row (1, s) / det
IsPid ==
  (Has /\ k > 0 /\ ~ctl.test /\ ctl.closed) =>
    \A s \in F :
      LET pp == ctl.par
          den == FTimes(FPlus(1, FTimes(FTimes(pp["beta"], pp["Ti"]), s)), FPlus(1, FTimes(FTimes(pp["eta"], pp["Td"]), s)))
          num == FTimes(FTimes(pp["Kp"], pp["beta"]), FTimes(FPlus(1, FTimes(pp["Ti"], s)), FPlus(1, FTimes(pp["Td"], s))))
          bd == Recip(Fac(ctl))                          \* det = den / bd
          f == Force(ctl)
          \* velocity times den: x2 = -(f1 + s f2) / det, plus Kp e / eta
          u == FPlus(FMinus(FTimes(bd, FPlus(f[1], FTimes(s, f[2])))), FTimes(den, FTimes(FTimes(pp["Kp"], Err(ctl)), Recip(pp["eta"]))))
      IN u = FTimes(num, Err(ctl))
\* the characteristic polynomial is that of the matrix in use
IsDet == (Has /\ k > 0 /\ ~ctl.test) =>
  \A s \in F : LET A == Rows(ctl) IN
     FTimes(Recip(Fac(ctl)), FPlus(FTimes(FPlus(s, A[1][1]), FPlus(s, A[2][2])), FMinus(FTimes(A[1][2], A[2][1]))))
     = FTimes(FPlus(1, FTimes(FTimes(ctl.par["beta"], ctl.par["Ti"]), s)), FPlus(1, FTimes(FTimes(ctl.par["eta"], ctl.par["Td"]), s)))
\* V(x - h d) = V(x) + h growth + h^2 V(d)
IsGrowth == (Has /\ k > 1) =>
  \A x1, x2, d1, d2 \in {0, 1, 3} : \A h \in {1, 2, 5} :
     Storage(ctl, <<FPlus(x1, FMinus(FTimes(h, d1))), FPlus(x2, FMinus(FTimes(h, d2)))>>)
     = FPlus(Storage(ctl, <<x1, x2>>), FPlus(FTimes(h, Growth(ctl, <<x1, x2>>, <<d1, d2>>)), FTimes(FTimes(h, h), Storage(ctl, <<d1, d2>>))))
\* the test controller keeps its energy, open loop nothing depends on be
Rotation == (Has /\ ctl.test) => LET c == With(ctl, 0) IN \A x1, x2 \in F : Inner(c, <<x1, x2>>, Res(c, <<x1, x2>>)) = 0
OpenInv == (Has /\ ~ctl.test /\ ~ctl.closed) => \A b \in F : Res(With(ctl, b), <<1, 2>>) = Res(ctl, <<1, 2>>) /\ Vel(With(ctl, b), <<1, 2>>) = 2
Kept == Has => \A n \in Names \cap DOMAIN last : ctl.par[n] = last[n]
KeptLoop == (Has /\ "closed-loop" \in DOMAIN last) => (ctl.closed <=> last["closed-loop"] # 0)
=============================================================================
