----------------------------- MODULE EMOutputs -----------------------------
(* The outputs of an electromagnetic machine: losses per volume of winding   *)
(* (direct and alternating current), core loss, the same as heat sources     *)
(* spread over the mesh, their sum, force and torque.  An output is a        *)
(* function of named inputs, which keep the value they were last given; its  *)
(* value is a stated formula of integrals over the mesh.                      *)
(*   form  which output                                                       *)
(*   val   which value each input has (0: never given)                        *)
(*   at    which values the output was last evaluated at                      *)
EXTENDS IEEE, Naturals, Integers, Sequences, TLC
VARIABLES form, val, at
evars == <<form, val, at>>
None == [n \in {} |-> 0]
Range(s) == {s[i] : i \in 1..Len(s)}
Spread == {"dcdist", "acdist", "coredist", "heat"}
Whole == {"dc", "ac", "core", "force", "torque"}

Init == form = [out |-> "none"] /\ val = None /\ at = None
Out(f) ==
  /\ form' = f /\ at' = None
  /\ f.out \in Spread \cup Whole /\ (f.out \in Whole => f.n = 1)
  /\ val' = [n \in Range(f.fields) \cup Range(f.scalars) |-> 0]
Give(ch) == DOMAIN ch \subseteq DOMAIN val /\ val' = ch @@ val
Set(ch) == Give(ch) /\ UNCHANGED <<form, at>>
Value(ch) == Give(ch) /\ at' = val' /\ UNCHANGED form
\* a distribution is differentiated where it was evaluated, the rest where their inputs are
Deriv(wrt) == wrt \in DOMAIN val /\ (form.out \in Spread => val = at) /\ UNCHANGED evars
Reset == form' = [out |-> "none"] /\ val' = None /\ at' = None

\* ---- numbers
Pi == DDec("3.141592653589793")
Sq(x) == DMul(x, x)
Near(a, b, s) == DLe(DAbs(DSub(a, b)), s)
Same(a, b) == Near(a, b, DAdd(DMul(DDec("1e-10"), DAbs(b)), DDec("1e-14")))
\* wires of a length, in parallel, each a disk of strand radius; the current is a root mean square
DCLoss(v, p) ==
  LET R == DDiv(DMul(v.wire_length, p.rho), DMul(DMul(Pi, Sq(v.strand_radius)), v.strands_in_hand)) IN
  DDiv(DMul(DMul(Sq(v.rms_current), R), DSqrt(DInt(2))), p.V)
\* eddy losses of every strand of every turn of every slot, going in and coming back
ACLoss(v, p) ==
  LET strand == DDiv(DMul(DMul(DMul(DMul(p.b2, v.stack_length), Pi), Sq(Sq(v.strand_radius))), Sq(DMul(DMul(DInt(2), Pi), v.frequency))), DInt(8))
      strands == DMul(DMul(DMul(DInt(2), v.strands_in_hand), v.num_turns), v.num_slots) IN
  DDiv(DMul(strand, strands), p.V)
RECURSIVE SumOf(_, _)
SumOf(parts, i) == IF i = 1 THEN parts[1] ELSE VAdd(SumOf(parts, i - 1), parts[i])
IsValue(got, v, p) ==
  CASE form.out = "dc" -> Same(got[1], DCLoss(v, p))
    [] form.out = "ac" -> Same(got[1], ACLoss(v, p))
    [] form.out \in {"core", "force", "torque"} -> Same(got[1], p.I)
    [] OTHER -> LET s == SumOf(p.parts, Len(p.parts)) tol == DAdd(DMul(DDec("1e-10"), VNorm(s)), DDec("1e-13")) IN
                Len(p.parts) = (IF form.out = "heat" THEN 3 ELSE 1) /\ Len(got) = form.n /\ Len(s) = form.n /\ \A i \in 1..form.n : Near(got[i], s[i], tol)
\* the losses are powers of the numbers they depend on
Power(out, n) ==
  IF out = "dc" THEN (CASE n = "wire_length" -> 1 [] n = "rms_current" -> 2 [] n = "strand_radius" -> 0 - 2 [] n = "strands_in_hand" -> 0 - 1 [] OTHER -> 0)
  ELSE (CASE n = "strand_radius" -> 4 [] n = "frequency" -> 2 [] n \in {"stack_length", "strands_in_hand", "num_turns", "num_slots"} -> 1 [] OTHER -> 0)
\* what a number of the output's moves by: its power times its share
IsPower(out, n, g, y, f, x) == out \in {"dc", "ac"} => Same(DMul(g, x), DMul(DMul(DInt(Power(out, n)), y), f))
\* virtual displacements of the nodes of the moving parts: along an axis, or around one
Arm(f, x) == LET k == Len(x) r(i) == DSub(x[i], f.about[i]) l == DSqrt(DAdd(DAdd(Sq(f.axis[1]), Sq(f.axis[2])), Sq(f.axis[3]))) a(i) == DDiv(f.axis[i], l) IN
  IF k = 2 THEN <<DNeg(DMul(a(3), r(2))), DMul(a(3), r(1))>>
  ELSE <<DSub(DMul(a(2), r(3)), DMul(a(3), r(2))), DSub(DMul(a(3), r(1)), DMul(a(1), r(3))), DSub(DMul(a(1), r(2)), DMul(a(2), r(1)))>>
Moves(f) ==
  \A j \in 1..Len(f.nodes) : LET q == f.nodes[j] want == IF ~q.in THEN [i \in 1..Len(q.x) |-> DInt(0)] ELSE IF f.out = "force" THEN [i \in 1..Len(q.x) |-> f.axis[i]] ELSE Arm(f, q.x) IN
    Len(q.v) = Len(q.x) /\ \A i \in 1..Len(q.x) : Near(q.v[i], want[i], DDec("1e-11"))
\* differences of second and fourth order; q = values at +h -h +2h -2h
D2(q, h) == DDiv(DSub(q[1], q[2]), DMul(DInt(2), h))
D4(q, h) == DDiv(DSub(DMul(DInt(8), DSub(q[1], q[2])), DSub(q[3], q[4])), DMul(DInt(12), h))
Abs4(q, h) == DDiv(DAdd(DAdd(DAbs(q[1]), DAbs(q[2])), DAdd(DAbs(q[3]), DAbs(q[4]))), h)
IsSlope(g, q, h) ==
  Near(g, D4(q, h), DAdd(DAdd(DMul(DDec("1e-7"), DAdd(DAbs(g), DAbs(D4(q, h)))), DMul(DRat(1, 10), DAbs(DSub(D4(q, h), D2(q, h))))),
                         DAdd(DMul(DDec("1e-11"), Abs4(q, h)), DDec("1e-11"))))
\* what a product added to `pre', contracted with a, is the derivative of y . output
IsDeriv(a, pre, post, y, F, h) ==
  /\ Len(pre) = Len(post)
  /\ IsSlope(VDot(a, VSub(post, pre)), [k \in 1..4 |-> VDot(y, F[k])], h)
=============================================================================
