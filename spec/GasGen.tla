------------------------------- MODULE GasGen -------------------------------
\* Every operation in every dimension, for every combination of regimes of its
\* states and kinds of directions.
EXTENDS Naturals, Sequences, TLC, Json
Regimes == {"sub", "super", "rest", "sonic", "wild"}
Pairs == Regimes \cup {"same", "near", "nearer", "mirror"} \* the second state, some relative to the first
Dirs == {"axis", "any", "tiny", "huge"}
One == {"pressure", "entvars", "consvars", "entropy"}
OneDir == {"euler", "radius", "slip", "wall", "control", "sutherland", "lps", "dqdw", "jacw"}
Two == {"roe", "ir", "irdiss", "bnd", "bndec", "far", "far2", "entropyref"}
Visc == {"viscous", "tangent", "adiabatic", "noslip", "penalty", "dual"}
Free == {"freestream", "logavg", "vortex", "vortexflux", "mms"}
VARIABLE x
Init == x = <<>>
Next == x = <<>> /\ (
  \/ \E o \in One, d \in 1..3, a \in Regimes, k \in 1..3 : x' = <<o, d, a, "same", "any", k>>
  \/ \E o \in OneDir, d \in 1..3, a \in Regimes, n \in Dirs : x' = <<o, d, a, "same", n, 1>>
  \/ \E o \in Two, d \in 1..3, a \in Regimes, b \in Pairs, n \in Dirs : x' = <<o, d, a, b, n, 1>>
  \/ \E o \in Visc, d \in 1..3, a \in Regimes, b \in {"sub", "super"}, n \in Dirs : x' = <<o, d, a, b, n, 1>>
  \/ \E o \in Free, d \in 1..3, a \in Regimes, b \in Pairs, n \in Dirs : x' = <<o, d, a, b, n, 1>>)
Spec == Init /\ [][Next]_x
Emit == x # <<>> => PrintT("SCN" \o ToJson(x))
=============================================================================
