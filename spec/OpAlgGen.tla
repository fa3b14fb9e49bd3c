------------------------------ MODULE OpAlgGen ------------------------------
(* Histories of one weighted sum or one matrix-free Jacobian: definitions,  *)
(* re-definitions, re-weightings, base states, applications, block requests *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Family
VARIABLES h, done
Weight == {"zero", "one", "gen", "neg", "tiny"}
SumStart == {<<"new0">>} \cup {<<k, a, b>> : k \in {"new", "newrect", "newbad"}, a \in Weight, b \in Weight}
SumOps == {<<k, a, b>> : k \in {"add", "addrect", "addbad", "addnest"}, a \in Weight, b \in {"zero", "gen"}}
          \cup {<<"mult", y>> : y \in {"nan", "junk", "short"}}
JFStart == {<<"jf", e, b, c>> : e \in {"none", "plain", "dense", "hypre", "part"}, b \in {"dense", "hypre", "none"}, c \in {"cached", "fresh"}}
JFOps == {<<"scaling", a>> : a \in {"zero", "one", "gen", "neg"}} \cup {<<"state", v>> : v \in {"vec", "inputs", "big"}}
         \cup {<<"mult", x>> : x \in {"nan", "junk", "small", "zerox", "large"}} \cup {<<"block", "1">>, <<"block", "2">>}
Start == IF Family = "sum" THEN SumStart ELSE JFStart
Ops == IF Family = "sum" THEN SumOps ELSE JFOps
Init == \E s \in Start : h = <<s>> /\ done = FALSE
Next == ~done /\ \/ Len(h) < D + 1 /\ (\E o \in Ops : h' = Append(h, o)) /\ UNCHANGED done
                 \/ Len(h) = D + 1 /\ done' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
