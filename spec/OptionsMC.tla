----------------------------- MODULE OptionsMC -----------------------------
\* Every pair of small option trees: the result is described path by path,
\* independently of the recursive merge.
EXTENDS Options, TLC, FiniteSets
VARIABLES user, k
mv == <<vars, user, k>>
IDec(x) == x
Keys == {"x", "y"}
Leaf == {[n |-> 1], [n |-> 2], Null, [a |-> <<[n |-> 1]>>]}
Obj(S) == {[o |-> f] : f \in UNION {[D -> S] : D \in SUBSET Keys}}
T1 == Leaf \cup Obj(Leaf)
Pair == Obj({[n |-> 1], [n |-> 2], [a |-> <<[n |-> 1]>>]})
\* defaults hold no null
D2 == Obj({[n |-> 1]} \cup Obj({[n |-> 1], [a |-> <<[n |-> 1]>>]}))
U2 == Obj({[n |-> 2], Null, [a |-> <<[n |-> 1]>>]} \cup Obj({[n |-> 2], Null, [a |-> <<>>]}))
WithPrint(t) == [o |-> Upd(t.o, "print-options", False)]
MCInit == Init /\ user = Null /\ k = 0
MCDefaults == k = 0 /\ k' = 1 /\ UNCHANGED user /\ \E d \in D2 : Defaults(WithPrint(d))
MCSolver == k = 1 /\ k' = 2 /\ \E u \in U2 : user' = u /\ Solver("A", u, Patch(dflt, u), Null)
MCLook == k = 2 /\ k' = 3 /\ UNCHANGED user /\ Look("A", dflt, opts["A"])
MCNext == MCDefaults \/ MCSolver \/ MCLook
MCSpec == MCInit /\ [][MCNext]_mv
At(t, p) == IF p = <<>> THEN t ELSE
  IF ~Has(t, p[1]) THEN [none |-> 0] ELSE
  IF Len(p) = 1 THEN t.o[p[1]] ELSE IF Has(t.o[p[1]], p[2]) THEN t.o[p[1]].o[p[2]] ELSE [none |-> 0]
Paths == {<<a>> : a \in Keys \cup {"print-options"}} \cup {<<a, b>> : a \in Keys, b \in Keys}
None(t) == "none" \in DOMAIN t
Res == opts["A"]
Done == k >= 2
\* each value the user gave is there (a null takes the key away)
Given == Done => \A p \in Paths : LET g == At(user, p) IN
  IF None(g) THEN TRUE ELSE IF IsNull(g) THEN None(At(Res, p)) ELSE IF IsObj(g) THEN IsObj(At(Res, p)) ELSE At(Res, p) = g
\* every default survives where the user gave nothing at it or above it
Kept == Done => \A p \in Paths : LET d == At(dflt, p) IN
  IF None(d) THEN TRUE ELSE
  IF None(At(user, p)) /\ (Len(p) = 2 => (LET u == At(user, <<p[1]>>) IN None(u) \/ IsObj(u))) THEN At(Res, p) = d ELSE TRUE
\* nothing else appears
Nothing == Done => \A p \in Paths : None(At(Res, p)) \/ ~None(At(user, p)) \/ ~None(At(dflt, p))
NoNulls == Done => \A p \in Paths : None(At(Res, p)) \/ ~IsNull(At(Res, p))
=============================================================================
