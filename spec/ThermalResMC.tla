---------------------------- MODULE ThermalResMC ----------------------------
(* Every small set of options, with two unknowns and one of them prescribed. *)
EXTENDS ThermalRes
VARIABLE hist
mcv == <<form, val, lin, hist>>
A1 == <<1>>  Two == DInt(2)
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Forms == {[basis |-> b, degree |-> p, penalty |-> mu, convection |-> c, outflux |-> o, essential |-> e, weak |-> w, contact |-> t, interface |-> i,
           ess |-> IF b = "H1" /\ e # <<>> THEN <<1>> ELSE <<>>, inputs |-> <<"state", "thermal_load">>] :
  b \in {"H1", "dg"}, p \in {1, 2}, mu \in Opt({DInt(7)}), c \in Opt({[attrs |-> A1, h |-> <<>>, temp |-> <<Two>>]}), o \in Opt({[attrs |-> A1, flux |-> <<>>]}),
  e \in Opt({A1}), w \in Opt({A1}), t \in Opt({[attrs |-> A1, name |-> "a", h |-> <<Two>>]}), i \in Opt({[attrs |-> A1, name |-> "b", h |-> <<Two>>, temp |-> <<One>>]})}
Names == {"state", "thermal_load"}
Some == {None} \cup UNION {[{n} -> {1, 2}] : n \in Names} \cup {[n \in Names |-> k] : k \in 1..2}
MCMake == form.basis = "none" /\ (\E f \in Forms : Make(f)) /\ hist' = <<>>
MCSet == form.basis # "none" /\ \E ch \in Some : Set(ch) /\ hist' = Append(hist, ch)
MCEval == form.basis # "none" /\ \E ch \in Some : Eval(ch) /\ hist' = Append(hist, ch)
MCLin == form.basis # "none" /\ \E ch \in Some : Linearize(ch) /\ hist' = Append(hist, ch)
MCUse == form.basis # "none" /\ lin # None /\ Use /\ UNCHANGED hist
MCNext == MCMake \/ MCSet \/ MCEval \/ MCLin \/ MCUse
MCSpec == Init /\ hist = <<>> /\ [][MCNext]_mcv
\* histories over one residual of each kind; every set of options without one
Small == form.degree = 1 /\ form.penalty = <<>> /\ form.convection = <<>> /\ form.outflux = <<>> /\ form.weak = <<>> /\ form.contact = <<>> /\ form.interface = <<>>
Bound == form.basis # "none" => Len(hist) <= (IF Small THEN 2 ELSE 0)
Last(n) == LET k == {i \in 1..Len(hist) : n \in DOMAIN hist[i]} IN IF k = {} THEN 0 ELSE hist[CHOOSE i \in k : \A j \in k : j <= i][n]
Keeps == form.basis # "none" => \A n \in Names : val[n] = Last(n)
Count(ty) == Cardinality({t \in Terms(form) : t.type = ty})
\* conduction always; couplings only between discontinuous elements; what an interface adds it also takes away
Shape == form.basis # "none" /\ hist = <<>> =>
  /\ Count("Diffusion") = 1 /\ Count("Convection") = Len(form.convection) /\ Count("Outflux") = Len(form.outflux)
  /\ Count("DGDiffusion") = Len(form.weak) + (IF form.basis = "H1" THEN 0 ELSE Len(form.essential))
  /\ Count("Contact") = Len(form.contact) /\ Count("Interface") = Len(form.interface)
  /\ Count("DGInterior") = Len(form.contact) + Len(form.interface) + (IF form.basis = "H1" THEN 0 ELSE 1)
  /\ \A t \in Terms(form) : t.type \in {"DGInterior", "DGDiffusion"} => DEq(t.d[1], IF form.penalty # <<>> THEN DInt(7) ELSE IF form.degree = 1 THEN DInt(4) ELSE DInt(9))
  /\ LET r(t) == [type |-> t.type, place |-> t.place, attrs |-> <<1>>, d |-> t.d, name |-> t.name]
         whole == {t \in Terms(form) : t.attrs = {1}}
     IN whole = Terms(form) => LET s == CHOOSE q \in [1..Cardinality(whole) -> whole] : Range(q) = whole IN AreTerms([k \in DOMAIN s |-> r(s[k])], form)
\* the load is a shift, its derivative is its difference, nothing moves a prescribed row
Vec == {<<DInt(a), DInt(b)>> : a \in -1..1, b \in 0..1}
Loads == form.basis # "none" /\ hist = <<>> /\ Small => \A s \in Vec : \A f \in Vec : \A d \in Vec :
  LET r(x) == VSub(s, Free(x, form.ess)) IN
  /\ IsResidual(r(f), s, f, form.ess) /\ IsResidual(s, s, <<>>, form.ess)
  /\ AddsLoad(r(f), r(VAdd(f, d)), d, form.ess)
  /\ form.ess # <<>> => DEq(r(f)[1], s[1])
  /\ (\E i \in 1..2 : i \notin Range(form.ess) /\ ~DEq(f[i], DInt(0))) => ~IsResidual(s, s, f, form.ess)
  /\ Adds(s, VAdd(s, d), d)
  \* minus the identity off those rows is its own transpose
  /\ DEq(VDot(s, Free(d, form.ess)), VDot(Free(s, form.ess), d))
=============================================================================
