-------------------------- MODULE FlowControlGen --------------------------
\* Controllers alone and coupled, what is given with each call, what is asked.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D, Kinds
VARIABLES h, done
vv == <<h, done>>
Given(kind) == {"nothing", "gains", "loop", "target", "storage", "entropy"} \cup IF kind = "flow" THEN {"actuator"} ELSE {}
Ask(kind) == IF kind = "control" THEN {"Give", "BadP", "Evaluate", "Velocity", "Entropy", "Change", "Jacobian"}
             ELSE {"Give", "BadBlock", "Evaluate", "Entropy", "Output", "Change", "Supply", "Mass", "Jacobian"}
Setups == ({"control"} \X BOOLEAN \X {"none"} \X {FALSE} \X {"none"}) \cup ({"flow"} \X BOOLEAN \X {"csbp", "dsbp"} \X BOOLEAN \X {"IR", "Euler"})
Init == done = FALSE /\ \E s \in Setups : s[1] \in Kinds /\ (s[4] => s[5] = "IR") /\ h = <<s>>
\* Supply is not set up for entropy variables; what is not a call of the residual takes no inputs
Fits(o, g) == /\ (o = "Supply" => ~h[1][4])
              /\ (o \in {"Mass", "BadBlock", "BadP", "Supply", "Change"} => g = "nothing" \/ (h[1][1] = "control" /\ o = "Change"))
Next == ~done /\ IF Len(h) > D THEN done' = TRUE /\ UNCHANGED h
                 ELSE UNCHANGED done /\ \E g \in Given(h[1][1]), o \in Ask(h[1][1]) : Fits(o, g) /\ h' = Append(h, <<o, g>>)
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
