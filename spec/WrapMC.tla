------------------------------- MODULE WrapMC -------------------------------
\* Every short history of two objects and two holders.
EXTENDS Wrap, TLC
VARIABLE k
mv == <<vars, k>>
MCInit == Init /\ k = 0
Tick == k < 5 /\ k' = k + 1
Some(kind) == {{}, Optional(kind)} \cup {{x} : x \in Optional(kind)}
Logs(op) == {<<>>} \cup {<<[obj |-> o, op |-> op]>> : o \in 1..2} \cup {<<[obj |-> o, op |-> op], [obj |-> q, op |-> op]>> : o, q \in 1..2}
Res(op) == {[k |-> "none"], [k |-> "null"], [k |-> "comm", v |-> "self"], [k |-> "comm", v |-> "world"]}
           \cup {[k |-> "error", e |-> x] : x \in {"miso", "notimplemented", "thrown"}}
           \cup {[k |-> "num", v |-> x] : x \in {0, 1, 2, 7} \cup {Reply(o, n) : o \in 1..2, n \in 1..5}}
           \cup {[k |-> "ref", obj |-> o, what |-> op] : o \in 1..2}
MCMake == Tick /\ \E o \in 1..2, kind \in Kinds : \E p \in IF o = 2 THEN {Optional(kind)} ELSE Some(kind) : Make(o, kind, p, 7)
MCWrap == Tick /\ \E h \in 1..2, o \in DOMAIN objs : \E s \in Logs("getSize") : Wrap(h, o, s)
MCMove == Tick /\ \E h, g \in 1..2 : Move(h, g)
MCCopy == Tick /\ \E h, g \in 1..2 : Copy(h, g)
MCDrop == Tick /\ \E h \in 1..2, f \in SUBSET (1..2) : Drop(h, f)
MCCall == Tick /\ \E h \in DOMAIN hold, boom \in BOOLEAN :
            \E op \in (Always(objs[hold[h]].kind) \cup Optional(objs[hold[h]].kind) \cup (IF objs[hold[h]].kind = "residual" THEN {"Mult", "GetGradient"} ELSE {})) :
              \E s \in Logs(Target(op)), r \in Res(Target(op)) :
                LET after == IF Provides(hold[h], Target(op)) /\ ~boom THEN <<<<1 + Reply(hold[h], objs[hold[h]].calls + 1)>>>> ELSE <<<<1>>>> IN
                Call(h, op, boom, s, r, <<<<1>>>>, after)
MCCallAll == Tick /\ \E h, g \in DOMAIN hold, op \in {"setInputs", "setOptions"} : \E s \in Logs(op) : CallAll(<<h, g>>, op, s)
MCConcrete == Tick /\ \E h \in DOMAIN hold, right \in BOOLEAN : \E r \in Res("") : Concrete(h, right, r)
MCNext == MCMake \/ MCWrap \/ MCMove \/ MCCopy \/ MCDrop \/ MCCall \/ MCCallAll \/ MCConcrete
MCSpec == MCInit /\ [][MCNext]_mv
\* nothing is held twice, except by reference; nothing held is gone
Held == /\ \A h \in DOMAIN hold : hold[h] \in DOMAIN objs
        /\ \A h, g \in DOMAIN hold : (h # g /\ hold[h] = hold[g]) => objs[hold[h]].kind = "integrator"
\* calls never get lost
Counts == [][\A o \in DOMAIN objs \cap DOMAIN objs' : objs'[o].calls >= objs[o].calls]_mv
=============================================================================
