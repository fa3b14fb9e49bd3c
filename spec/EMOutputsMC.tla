----------------------------- MODULE EMOutputsMC -----------------------------
(* The losses as functions of small numbers, and a heat source of two nodes. *)
EXTENDS EMOutputs, FiniteSets
VARIABLE hist
mcv == <<form, val, at, hist>>
Numbers(o) == IF o = "dc" THEN <<"wire_length", "rms_current", "strand_radius", "strands_in_hand">>
              ELSE IF o = "ac" THEN <<"frequency", "stack_length", "strand_radius", "strands_in_hand", "num_turns", "num_slots">>
              ELSE <<"frequency">>
Mk(o) == [out |-> o, fields |-> <<"state", "mesh_coords">>, scalars |-> Numbers(o), n |-> IF o \in Spread THEN 2 ELSE 1, nodes |-> <<>>]
Names == {"state", "mesh_coords"} \cup (IF form.out = "none" THEN {} ELSE Range(form.scalars))
Some == {None} \cup UNION {[{n} -> {1, 2}] : n \in Names} \cup {[n \in Names |-> k] : k \in 1..2} \cup {[n \in Names \ {"state"} |-> 2]}
MCOut == form.out = "none" /\ (\E o \in {"dc", "ac", "heat", "core"} : Out(Mk(o))) /\ hist' = <<>>
MCSet == form.out # "none" /\ (\E ch \in Some : Set(ch) /\ hist' = Append(hist, ch))
MCValue == form.out # "none" /\ (\E ch \in Some : Value(ch) /\ hist' = Append(hist, ch))
MCDeriv == form.out # "none" /\ (\E n \in Names : Deriv(n)) /\ UNCHANGED hist
MCNext == MCOut \/ MCSet \/ MCValue \/ MCDeriv
MCSpec == Init /\ hist = <<>> /\ [][MCNext]_mcv
Bound == Len(hist) <= 2
Last(n) == LET k == {i \in 1..Len(hist) : n \in DOMAIN hist[i]} IN
           IF k = {} THEN 0 ELSE hist[CHOOSE i \in k : \A j \in k : j <= i][n]
Keeps == form.out # "none" => \A n \in Names : val[n] = Last(n)
\* the number behind an identity, moved by e / 64
Num(v, wrt, e) == [n \in Range(form.scalars) |-> DAdd(DRat(2 + v[n], 2), IF n = wrt THEN DRat(e, 64) ELSE DInt(0))]
P == [rho |-> DRat(7, 3), b2 |-> DRat(5, 4), V |-> DRat(3, 2), I |-> DInt(4), parts |-> << <<DInt(1), DInt(2)>>, <<DInt(3), DInt(0)>>, <<DInt(5), DInt(7)>> >>]
F(v, wrt, e) == IF form.out = "dc" THEN DCLoss(Num(v, wrt, e), P) ELSE ACLoss(Num(v, wrt, e), P)
\* the formula has exactly these powers
Powers == Len(hist) <= 1 /\ form.out \in {"dc", "ac"} => \A n \in Range(form.scalars) :
  LET q == [k \in 1..4 |-> F(val, n, <<1, -1, 2, -2>>[k])]
      f == F(val, n, 0)  x == Num(val, n, 0)[n]
      g(p) == DDiv(DMul(DInt(p), f), x) IN
  \A p \in -3..5 :
    /\ (p = Power(form.out, n)) <=> IsSlope(g(p), q, DRat(1, 64))
    /\ (p = Power(form.out, n)) <=> IsPower(form.out, n, g(p), DInt(1), f, x)
\* more winding, frequency or current costs more
Values ==
  /\ form.out \in {"dc", "ac"} => LET v == Num(val, "", 0) IN IsValue(<<F(val, "", 0)>>, v, P) /\ ~IsValue(<<F(val, "", 0)>>, v, [P EXCEPT !.V = DInt(2)])
  /\ form.out = "heat" => IsValue(<<DInt(9), DInt(9)>>, [n \in {} |-> 0], P) /\ ~IsValue(<<DInt(8), DInt(7)>>, [n \in {} |-> 0], P)
                           /\ ~IsValue(<<DInt(9), DInt(9)>>, [n \in {} |-> 0], [P EXCEPT !.parts = <<@[1], @[2]>>])
  /\ form.out = "core" => IsValue(<<DInt(4)>>, [n \in {} |-> 0], P) /\ ~IsValue(<<DInt(5)>>, [n \in {} |-> 0], P)
\* around an axis: perpendicular to it and to the arm, and as long as the arm is far from it
ASSUME LET c == {-1, 0, 2} IN \A a \in {<<0, 0, 2>>, <<1, 2, 2>>, <<0, -3, 0>>} : \A x \in c : \A y \in c : \A z \in {0, 1} :
  LET d(n) == IF n < 0 THEN DNeg(DInt(0 - n)) ELSE DInt(n)
      f == [axis |-> <<d(a[1]), d(a[2]), d(a[3])>>, about |-> <<d(1), d(0), d(-1)>>]
      r == <<d(x), d(y), d(z)>>  v == Arm(f, r)  arm == VSub(r, f.about)  l2 == VDot(f.axis, f.axis) IN
  /\ Near(VDot(v, f.axis), DInt(0), DDec("1e-12")) /\ Near(VDot(v, arm), DInt(0), DDec("1e-12"))
  /\ Near(VDot(v, v), DSub(VDot(arm, arm), DDiv(Sq(VDot(arm, f.axis)), l2)), DDec("1e-12"))
  /\ a = <<0, 0, 2>> => LET w == Arm([f EXCEPT !.about = <<d(1), d(0)>>], <<d(x), d(y)>>) IN DEq(w[1], v[1]) /\ DEq(w[2], v[2])
=============================================================================
