----------------------------- MODULE ThermalRes -----------------------------
(* The residual of heat conduction in a machine: which terms its options ask *)
(* for, and the load that is subtracted.                                     *)
(*   form  the options                                                       *)
(*   val   which value each input has (0: never given)                       *)
(*   lin   the values it was last linearized at                              *)
EXTENDS IEEE, Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES form, val, lin
tvars == <<form, val, lin>>
None == [n \in {} |-> 0]
Range(s) == {s[i] : i \in 1..Len(s)}
One == DInt(1)
Minus == DNeg(One)

Init == form = [basis |-> "none"] /\ val = None /\ lin = None
Make(f) == form' = f /\ val' = [n \in Range(f.inputs) |-> 0] /\ lin' = None
Give(ch) == DOMAIN ch \subseteq DOMAIN val /\ val' = ch @@ val
Set(ch) == Give(ch) /\ UNCHANGED <<form, lin>>
Eval(ch) == Give(ch) /\ "state" \in DOMAIN ch /\ UNCHANGED <<form, lin>>
Linearize(ch) == Give(ch) /\ lin' = val' /\ UNCHANGED form
Use == UNCHANGED tvars

\* ---- the terms options ask for; penalty and numbers that are not given have their defaults
Or(s, d) == IF s = <<>> THEN d ELSE s[1]
Mu(f) == Or(f.penalty, DInt((f.degree + 1) * (f.degree + 1)))
Term(ty, place, attrs, ds, name) == [type |-> ty, place |-> place, attrs |-> attrs, d |-> ds, name |-> name]
Discontinuous(f) == f.basis \in {"L2", "l2", "DG", "dg"}
Terms(f) ==
  {Term("Diffusion", "domain", {}, <<>>, "")}
  \cup (IF Discontinuous(f) THEN {Term("DGInterior", "interior", {}, <<Mu(f), One>>, "")} ELSE {})
  \cup {Term("Convection", "bdr", Range(c.attrs), <<Or(c.h, One), Or(c.temp, One)>>, "") : c \in Range(f.convection)}
  \cup {Term("Outflux", "bdr", Range(c.attrs), <<Or(c.flux, One)>>, "") : c \in Range(f.outflux)}
  \* a continuous space has its essential degrees of freedom instead
  \cup (IF Discontinuous(f) THEN {Term("DGDiffusion", "bdr", Range(c), <<Mu(f)>>, "essential") : c \in Range(f.essential)} ELSE {})
  \cup {Term("DGDiffusion", "bdr", Range(c), <<Mu(f)>>, "weak") : c \in Range(f.weak)}
  \* across an interface the continuous coupling is taken away and its own put there
  \cup UNION {{Term("DGInterior", "internal", Range(c.attrs), <<Mu(f), Minus>>, c.name), Term("Contact", "internal", Range(c.attrs), <<c.h[1]>>, c.name)} : c \in Range(f.contact)}
  \cup UNION {{Term("DGInterior", "internal", Range(c.attrs), <<Mu(f), Minus>>, c.name), Term("Interface", "internal", Range(c.attrs), <<c.h[1], c.temp[1]>>, c.name)} : c \in Range(f.interface)}
\* the numbers that can be given by name
Numbers(f) ==
  (IF f.convection # <<>> THEN {"h", "fluid_temp"} ELSE {}) \cup (IF f.outflux # <<>> THEN {"outflux"} ELSE {})
  \cup {"h:" \o c.name : c \in Range(f.contact) \cup Range(f.interface)} \cup {"fluid_temp:" \o c.name : c \in Range(f.interface)}
SameTerm(a, b) == a.type = b.type /\ a.place = b.place /\ a.attrs = b.attrs /\ a.name = b.name /\ Len(a.d) = Len(b.d) /\ \A i \in 1..Len(a.d) : DEq(a.d[i], b.d[i])
\* parts given as a list are exactly these
AreThese(ts, S) ==
  LET t(i) == [type |-> ts[i].type, place |-> ts[i].place, attrs |-> Range(ts[i].attrs), d |-> ts[i].d, name |-> ts[i].name] IN
  /\ Len(ts) = Cardinality(S) /\ \A i \in 1..Len(ts) : \E b \in S : SameTerm(t(i), b)
  /\ \A b \in S : \E i \in 1..Len(ts) : SameTerm(t(i), b)
AreTerms(ts, f) == AreThese(ts, Terms(f))

\* ---- values: the sum of the terms, without the load where the state is prescribed
Close(a, b, s) == DLe(DAbs(DSub(a, b)), DAdd(DMul(DDec("1e-10"), s), DDec("1e-13")))
Free(v, ess) == [i \in 1..Len(v) |-> IF i \in Range(ess) THEN DInt(0) ELSE v[i]]
IsResidual(got, sum, load, ess) ==
  LET w == IF load = <<>> THEN sum ELSE VSub(sum, Free(load, ess)) IN
  Len(got) = Len(sum) /\ \A i \in 1..Len(got) : Close(got[i], w[i], DAdd(VNorm(w), VNorm(sum)))
\* the derivative along the load is minus the identity off the prescribed rows, either way
AddsLoad(pre, post, seed, ess) ==
  LET w == VSub(pre, Free(seed, ess)) IN Len(post) = Len(w) /\ \A i \in 1..Len(w) : Close(post[i], w[i], VNorm(w))
Adds(pre, post, part) ==
  LET w == VAdd(pre, part) IN Len(post) = Len(w) /\ \A i \in 1..Len(w) : Close(post[i], w[i], DAdd(VNorm(w), VNorm(part)))
\* an adjoint solves a system, which may have no solution
IsAdjoint(a, b) == VFinite(b) => Len(a) = Len(b) /\ \A i \in 1..Len(a) : DLe(DAbs(DSub(a[i], b[i])), DMul(DDec("1e-6"), VNorm(b)))
IsSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Close(a[i], b[i], VNorm(b))
\* the preconditioner is of the kind asked for
IsPrec(asked, has) == has = (IF asked \in {"hypreboomeramg", "hypreilu"} THEN asked ELSE "none")
=============================================================================
