------------------------------ MODULE WrapGen ------------------------------
\* Histories of objects being held, moved, copied, called and dropped.
EXTENDS Wrap, TLC, Json
CONSTANTS D, Masks, Calls \* Calls: every object is called right away
VARIABLES h, mask, done
vv == <<vars, h, mask, done>>
Do(op) == h' = Append(h, op)
Next2 == Cardinality(DOMAIN mask) + 1
Ops(k) == Always(k) \cup Optional(k) \cup (IF k = "residual" THEN {"Mult", "GetGradient"} ELSE {})
GMake == /\ Cardinality(DOMAIN hold) < 4
         /\ \E k \in Kinds, m \in Masks : \E g \in 1..6 \ DOMAIN hold :
              /\ \A f \in 1..6 \ DOMAIN hold : g <= f
              /\ Do(<<"make", Next2, k, m, g>>)
              /\ objs' = With(objs, Next2, [kind |-> k, prov |-> {}, size |-> 1, calls |-> 0])
              /\ mask' = With(mask, Next2, m) /\ hold' = With(hold, g, Next2)
GMove == \E a \in DOMAIN hold, b \in 1..6 : Move(a, b) /\ Do(<<"move", a, b>>) /\ UNCHANGED mask
GCopy == \E a \in DOMAIN hold, b \in 1..6 : a # b /\ (b \in DOMAIN hold => objs[hold[b]].kind = "integrator") /\ Copy(a, b) /\ Do(<<"copy", a, b>>) /\ UNCHANGED mask
GDrop == \E a \in DOMAIN hold : Do(<<"drop", a>>) /\ hold' = Without(hold, a) /\ UNCHANGED <<objs, mask>>
GCall == \E a \in DOMAIN hold, b \in BOOLEAN : \E op \in Ops(objs[hold[a]].kind) : (b => op # "getSize") /\ Do(<<"call", a, op, b>>) /\ UNCHANGED <<vars, mask>>
Ints == {a \in DOMAIN hold : objs[hold[a]].kind = "integrator"}
GAll == \E a, b \in Ints, op \in {"setInputs", "setOptions"} : Do(<<"all", <<a, b, a>>, op>>) /\ UNCHANGED <<vars, mask>>
GConcrete == \E a \in DOMAIN hold, m \in Masks, c \in BOOLEAN : objs[hold[a]].kind = "residual" /\ Do(<<"concrete", a, m, c>>) /\ UNCHANGED <<vars, mask>>
GEntropy == \E a \in DOMAIN hold, op \in {"calcOutput", "setInputs", "setOptions", "partials"} : objs[hold[a]].kind = "residual" /\ Do(<<"entropy", a, op>>) /\ UNCHANGED <<vars, mask>>
Init2 == Init /\ h = <<>> /\ mask = <<>> /\ done = FALSE
Next == /\ ~done
        /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED <<vars, h, mask>>
           ELSE UNCHANGED done /\ (IF h = <<>> THEN GMake ELSE IF Calls THEN GCall \/ GConcrete \/ GEntropy ELSE GMake \/ GMove \/ GCopy \/ GDrop \/ GCall \/ GAll \/ GConcrete \/ GEntropy)
Spec == Init2 /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
