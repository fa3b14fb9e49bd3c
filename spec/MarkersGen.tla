----------------------------- MODULE MarkersGen -----------------------------
\* Histories of marking arrays, building forms on meshes, adding terms,
\* selecting attributes and evaluating.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Calm  \* Calm: valid lists only, one form
VARIABLES h, form, done
vv == <<h, form, done>>
Place == {"domain", "bdr", "internal"}
How == {"all", "one", "some", "every", "empty", "repeat"}
Bad == IF Calm THEN {} ELSE {"zero", "above", "negative"}
Entry == {"all", "none"} \cup How \cup Bad \cup (IF Calm THEN {} ELSE {"All", "", "number", "null", "object"})
Meshes == {<<"load", e, s>> : e \in {"tri", "quad", "tet", "hex"}, s \in {"h1", "nd", "l2"}}
Marks == {<<"mark", a, e>> : a \in {"attrs"}, e \in (How \cup Bad) \ {"all"}} \cup {<<"mark", "entry", e>> : e \in Entry}
Forms == {"residual", "load", "functional"}
Init == h \in {<<m>> : m \in (IF Calm THEN {} ELSE Marks) \cup Meshes} /\ form = "" /\ done = FALSE
Do(op) == h' = Append(h, op)
Steps ==
  \/ (~Calm \/ form = "") /\ \E f \in Forms : Do(<<"build", f>>) /\ form' = f
  \/ /\ form # "" /\ UNCHANGED form
     /\ \/ \E p \in Place \cup (IF form = "load" THEN {"boundary"} ELSE {"face"}) : Do(<<"add", p, "all">>)
        \/ \E p \in Place \cup (IF form = "load" THEN {"boundary"} ELSE {}), w \in (How \cup Bad) \ {"all"} : Do(<<"add", p, w>>)
        \/ Do(<<"eval">>)
        \/ Do(<<"options">>)
        \/ form = "functional" /\ \E w \in (How \cup Bad) \ {"all"} : Do(<<"reselect", w>>)
        \/ form # "functional" /\ \E e \in Entry : Do(<<"essential", e>>)
Next == /\ ~done
        /\ IF h[1][1] = "mark" THEN IF Len(h) >= 3 THEN done' = TRUE /\ UNCHANGED <<h, form>> ELSE UNCHANGED <<form, done>> /\ \E m \in Marks : Do(m)
           ELSE IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED form /\ Do(<<"eval">>)
           ELSE UNCHANGED done /\ Steps
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
