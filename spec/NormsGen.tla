------------------------------ MODULE NormsGen ------------------------------
\* Histories: fields of every family, given values in every way, and norms of
\* every form asked for.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done
vv == <<h, done>>
Fams == {"H1", "L2", "ND", "RT", "csbp", "dsbp"}
Ps == {"1", "2", "3", "4", "1.5", "8", "inf"}
Norms == {<<"norm", f, p, e, q>> : f \in {"norm", "L2", "coef", "fun"}, p \in Ps, e \in {"all", "0", "1", "2"}, q \in {"far", "equal"}}
Errs == {<<"err", f, n, q>> : f \in {"fun", "coef", "vec", "whole", "size"}, n \in {"state", "adjoint", "ext"}, q \in {"far", "equal"}}
Init == done = FALSE /\ h \in {<< <<"make", f>> >> : f \in Fams} \cup {<< <<"solver", f>> >> : f \in Fams}
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED h
        ELSE /\ UNCHANGED done
             /\ \/ \E n \in Norms : h[1][1] = "make" /\ h' = Append(h, n)
                \/ \E e \in Errs : h[1][1] = "solver" /\ h' = Append(h, e)
                \/ D > 2 /\ Len(h) < D - 1 /\ \E o \in {"dist", "poke"} : h' = Append(h, <<o>>)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
