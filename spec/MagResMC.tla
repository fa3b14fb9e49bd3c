------------------------------ MODULE MagResMC ------------------------------
(* Every small set of options; sources of two unknowns, one prescribed. *)
EXTENDS MagRes
Two == DInt(2)
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Groups == {<<>>, <<[group |-> "a", attrs |-> <<1>>]>>, <<[group |-> "a", attrs |-> <<1>>], [group |-> "b", attrs |-> <<2, 3>>]>>}
Forms == {[basis |-> b, dim |-> d, degree |-> p, penalty |-> mu, essential |-> e, weak |-> w, current |-> c, magnets |-> m,
           ess |-> IF b # "dg" /\ e # <<>> THEN <<1>> ELSE <<>>, inputs |-> <<"state">>] :
  b \in {"H1", "dg"}, d \in {2, 3}, p \in {1, 2}, mu \in Opt({DInt(7)}), e \in Opt({<<1>>}), w \in Opt({<<1>>}), c \in Groups, m \in Groups}
MCMake == form.basis = "none" /\ (\E f \in Forms : Make(f))
MCNext == MCMake \/ (form.basis # "none" /\ UNCHANGED tvars)
MCSpec == Init /\ [][MCNext]_tvars
Count(ty) == Cardinality({t \in MTerms(form) : t.type = ty})
Shape == form.basis # "none" =>
  /\ Count("Diffusion") = (IF form.dim = 2 THEN 1 ELSE 0) /\ Count("CurlCurl") = (IF form.dim = 3 THEN 1 ELSE 0)
  /\ Count("DGInterior") = (IF form.dim = 2 /\ form.basis = "dg" THEN 1 ELSE 0)
  /\ Count("DGDiffusion") = (IF form.dim = 3 THEN 0 ELSE Len(form.weak) + (IF form.basis = "dg" THEN Len(form.essential) ELSE 0))
  /\ Count("Current") = (IF form.current = <<>> THEN 0 ELSE 1) /\ Count("Magnet") = (IF form.magnets = <<>> THEN 0 ELSE 1)
  /\ \A t \in MTerms(form) : t.type = "Current" => t.attrs = (IF Len(form.current) = 1 THEN {1} ELSE {1, 2, 3})
  /\ \A t \in MTerms(form) : t.type \in {"DGInterior", "DGDiffusion"} => DEq(t.d[1], IF form.penalty # <<>> THEN DInt(7) ELSE IF form.degree = 1 THEN DInt(8) ELSE DInt(27))
  /\ Cardinality(MNumbers(form)) = Len(form.current)
\* with a load c u + m, the derivative by c is u off the prescribed rows, whatever m; with m in it, it is refused
Vec == {<<DInt(a), DInt(b)>> : a \in -1..1, b \in 0..1}
Zero == <<DInt(0), DInt(0)>>
Derivs == form.basis # "none" /\ form.degree = 1 /\ form.weak = <<>> /\ form.penalty = <<>> /\ form.dim = 2 /\ form.magnets = <<>> => \A u \in Vec : \A m \in Vec : \A s \in Vec :
  LET L == <<VAdd(VScale(Two, u), m), VAdd(u, m)>>  g == Free(u, form.ess)  bad == Free(VAdd(u, m), form.ess) IN
  /\ AddsCurrent("jvp", s, VAxpy(DInt(3), g, s), <<DInt(3)>>, L, form.ess)
  /\ AddsCurrent("vjp", <<>>, <<VDot(s, g)>>, s, L, form.ess)
  /\ bad # g /\ ~VEq(bad, g) => ~AddsCurrent("jvp", s, VAxpy(DInt(3), bad, s), <<DInt(3)>>, L, form.ess)
  /\ ~DEq(VDot(s, bad), VDot(s, g)) => ~AddsCurrent("vjp", <<>>, <<VDot(s, bad)>>, s, L, form.ess)
  /\ IsDriven(VAdd(s, g), s, u, form.ess) /\ (~VEq(g, Zero) => ~IsDriven(s, s, u, form.ess) /\ ~IsDriven(VSub(s, g), s, u, form.ess))
=============================================================================
