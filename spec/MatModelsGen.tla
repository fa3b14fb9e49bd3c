---------------------------- MODULE MatModelsGen ----------------------------
\* Histories: coefficients of every kind are built from components of every
\* shape and read, with their derivatives, on every attribute in any order.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, MaxComps, Regimes
VARIABLES h, done
vv == <<h, done>>
Models(k) == CASE k = "sigma" -> {"constant", "linear"} [] k = "nu" -> {"linear", "lognu", "bh"} [] k = "br" -> {"br"}
               [] k \in {"bknee", "demag"} -> {"Demag"} [] k \in {"kh", "ke"} -> {"CAL2"}
Kinds == {"sigma", "nu", "br", "bknee", "demag", "kh", "ke"}
Shapes(k) == (Models(k) \X {"own", "lib", "mixed"} \X {"attr", "attrs"})
        \cup ({"string", "none"} \X {"lib"} \X {"attr", "attrs"})
        \cup (IF k \in {"sigma", "nu"} THEN {"nosuch", "team13"} \X {"own"} \X {"attrs"} ELSE {})
Lists(k) == {<<s>> : s \in Shapes(k)} \cup (IF MaxComps > 1 THEN {<<s, t>> : s \in Shapes(k), t \in Shapes(k)} ELSE {})
Wraps(k) == IF k \in {"sigma", "nu"} THEN {"components"} ELSE {"components", "bare"}
Reads == ({"Eval"} \X (1..6) \X Regimes) \cup {<<"Plain", 1, "any">>, <<"Plain", 6, "any">>} \cup {<<"Vec", a, "any">> : a \in {1, 3}}
          \cup {<<"Lambda", 1, "any">>, <<"Cont", 1, "any">>}
Init == h = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
           ELSE UNCHANGED done /\ IF h = <<>>
             THEN \E k \in Kinds : \E c \in Lists(k) : \E w \in Wraps(k) : h' = <<<<"Build", k, w, c>>>>
             ELSE \E r \in Reads : h' = Append(h, r)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
