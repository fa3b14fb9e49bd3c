----------------------------- MODULE JsonPatch -----------------------------
\* JSON values as tagged records, and the merge patch of RFC 7396.
\*   [o |-> record]  [a |-> sequence]  [n |-> number]  [s |-> string]
\*   [b |-> boolean]  [z |-> 0] for null
EXTENDS Naturals, Sequences
IsObj(j) == "o" \in DOMAIN j
IsNull(j) == "z" \in DOMAIN j
IsNum(j) == "n" \in DOMAIN j
IsStr(j) == "s" \in DOMAIN j
IsArr(j) == "a" \in DOMAIN j
Null == [z |-> 0]
Has(j, k) == IsObj(j) /\ k \in DOMAIN j.o
RECURSIVE Patch(_, _)
Patch(t, p) ==
  IF ~IsObj(p) THEN p
  ELSE LET f == IF IsObj(t) THEN t.o ELSE [k \in {} |-> Null]
           gone == {k \in DOMAIN p.o : IsNull(p.o[k])}
           keys == (DOMAIN f \cup DOMAIN p.o) \ gone
       IN [o |-> [k \in keys |-> IF k \in DOMAIN p.o
                                 THEN Patch(IF k \in DOMAIN f THEN f[k] ELSE Null, p.o[k])
                                 ELSE f[k]]]
\* equal up to the way an empty object is written
RECURSIVE Same(_, _)
Same(x, y) ==
  IF IsObj(x) THEN IsObj(y) /\ DOMAIN x.o = DOMAIN y.o /\ \A k \in DOMAIN x.o : Same(x.o[k], y.o[k])
  ELSE IF IsArr(x) THEN IsArr(y) /\ Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : Same(x.a[i], y.a[i])
  ELSE x = y
=============================================================================
