------------------------------- MODULE MagRes -------------------------------
(* The residual of a magnetic potential: curl or gradient terms its options  *)
(* ask for, and the currents and magnets that drive it.  Its state is that   *)
(* of a thermal residual: options, values given, where it was linearized.    *)
EXTENDS ThermalRes
MMu(f) == Or(f.penalty, DInt((f.degree + 1) * (f.degree + 1) * (f.degree + 1)))
Where(s) == UNION {Range(c.attrs) : c \in Range(s)}
MTerms(f) ==
  (IF f.dim = 3 THEN {Term("CurlCurl", "domain", {}, <<>>, "")}
   ELSE {Term("Diffusion", "domain", {}, <<>>, "")}
        \cup (IF Discontinuous(f) THEN {Term("DGInterior", "interior", {}, <<MMu(f), One>>, "")} ELSE {})
        \cup (IF Discontinuous(f) THEN {Term("DGDiffusion", "bdr", Range(c), <<MMu(f)>>, "essential") : c \in Range(f.essential)} ELSE {})
        \cup {Term("DGDiffusion", "bdr", Range(c), <<MMu(f)>>, "weak") : c \in Range(f.weak)})
  \cup (IF f.current = <<>> THEN {} ELSE {Term("Current", "load", Where(f.current), <<>>, "")})
  \cup (IF f.magnets = <<>> THEN {} ELSE {Term("Magnet", "load", Where(f.magnets), <<>>, "")})
MNumbers(f) == {"current_density:" \o c.group : c \in Range(f.current)}
\* in space a load is the result of iterative solves
LoadClose(a, b, s) == Close(a, b, s) \/ (form.dim = 3 /\ DLe(DAbs(DSub(a, b)), DAdd(DDec("1e-9"), DMul(DDec("1e-9"), s))))
\* what drives it is added, but not where the state is prescribed
IsDriven(got, sum, load, ess) ==
  LET w == VAdd(sum, Free(load, ess)) IN Len(got) = Len(w) /\ \A i \in 1..Len(got) : LoadClose(got[i], w[i], DAdd(VNorm(load), VNorm(sum)))
\* a load is affine in the densities: its derivative is the difference a unit makes, whatever else drives
Unit(L, ess) == Free(VSub(L[1], L[2]), ess)
Near6(a, b, s) == DLe(DAbs(DSub(a, b)), DAdd(DMul(DDec("1e-8"), s), IF form.dim = 3 THEN DDec("1e-8") ELSE DDec("1e-13")))
AddsCurrent(mode, pre, post, seed, L, ess) ==
  IF mode = "jvp" THEN LET w == VAxpy(seed[1], Unit(L, ess), pre) IN Len(post) = Len(w) /\ \A i \in 1..Len(w) : Near6(post[i], w[i], DAdd(VNorm(w), VNorm(L[1])))
  ELSE Near6(post[1], VDot(seed, Unit(L, ess)), DMul(VNorm(seed), DAdd(VNorm(L[1]), VNorm(L[2]))))
IsMPrec(asked, has) == has = (IF asked \in {"hypreboomeramg", "hypreilu", "hypreams"} THEN asked ELSE "none")
=============================================================================
