----------------------------- MODULE BlockJacGen -----------------------------
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done
Start == {<<"new", m, o>> : m \in {"1", "2", "3", "4"}, o \in {"own", "free"}}
Kinds == {"block", "blockhyp", "jf", "jfhyp", "other"}
Ops == {<<"set", b, k>> : b \in {"first", "last", "any", "all"}, k \in {"iter", "direct", "nosize"}} \cup {<<"clear", "any">>}
       \cup {<<"op", k>> : k \in Kinds}
       \cup {<<"mult", y>> : y \in {"nan", "junk"}} \cup {<<"multT", "nan">>, <<"shape", "">>}
Init == \E s \in Start : h = <<s>> /\ done = FALSE
Next == ~done /\ \/ Len(h) < D + 1 /\ (\E o \in Ops : h' = Append(h, o)) /\ UNCHANGED done
                 \/ Len(h) = D + 1 /\ done' = TRUE /\ UNCHANGED h
Spec == Init /\ [][Next]_<<h, done>>
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
