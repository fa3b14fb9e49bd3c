-------------------------------- MODULE Wrap --------------------------------
\* Type-erased holders of residuals, outputs, loads and integrators.
\*   objs   object -> its kind, the optional operations it provides, how often
\*          it was called
\*   hold   holder -> the object it stands for
\* A holder owns its object, except that integrator holders only refer to it.
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES objs, hold
vars == <<objs, hold>>
Kinds == {"residual", "output", "load", "integrator"}
Always(kind) == CASE kind = "residual" -> {"getSize", "evaluate", "getJacobian"}
                  [] kind = "output" -> {"getSize", "calcOutput"}
                  [] kind = "load" -> {"addLoad", "jvps", "jvpv", "vjps", "vjpv"}
                  [] OTHER -> {}
Optional(kind) == CASE kind = "residual" -> {"setInputs", "setOptions", "getMPIComm", "linearize", "getJacobianTranspose", "getJacobianBlock",
                                             "setUpAdjointSystem", "finalizeAdjointSystem", "jvps", "jvpv", "vjps", "vjpv",
                                             "calcEntropy", "calcEntropyChange", "calcSupplyRate", "getMassMatrix", "getPreconditioner"}
                    [] kind = "output" -> {"setInputs", "setOptions", "partials", "partialv", "outputv", "jvps", "jvpv", "vjps", "vjpv"}
                    [] kind \in {"load", "integrator"} -> {"setInputs", "setOptions"}
\* a residual is also an mfem operator
Target(op) == IF op = "Mult" THEN "evaluate" ELSE IF op = "GetGradient" THEN "getJacobian" ELSE op
\* what a holder does for an object that does not provide the operation
Default(op) == CASE op \in {"setInputs", "setOptions"} -> [k |-> "none"]
                 [] op \in {"getMassMatrix", "getPreconditioner"} -> [k |-> "null"]
                 [] op \in {"getMPIComm", "calcSupplyRate", "getJacobianBlock"} -> [k |-> "error", e |-> "miso"]
                 [] OTHER -> [k |-> "error", e |-> "notimplemented"]
Returns(op) == CASE op \in {"calcOutput", "jvps", "vjps", "calcEntropy", "calcEntropyChange", "calcSupplyRate", "partials"} -> "num"
                 [] op = "getSize" -> "size"
                 [] op = "getMPIComm" -> "comm"
                 [] op \in {"getJacobian", "getJacobianTranspose", "getJacobianBlock", "getMassMatrix", "getPreconditioner"} -> "ref"
                 [] OTHER -> "none"
\* the objects of the model number their calls and answer with a number made of both
Reply(o, n) == 100 * o + n
Answer(o, op, n) == LET r == Returns(op) IN
  CASE r = "num" -> [k |-> "num", v |-> Reply(o, n)]
    [] r = "size" -> [k |-> "num", v |-> objs[o].size]
    [] r = "comm" -> [k |-> "comm", v |-> IF o % 2 = 1 THEN "self" ELSE "world"]
    [] r = "ref" -> [k |-> "ref", obj |-> o, what |-> op]
    [] OTHER -> [k |-> "none"]
Plus(b, r) == [i \in 1..Len(b) |-> [j \in 1..Len(b[i]) |-> b[i][j] + r]]
Provides(o, op) == op \in Always(objs[o].kind) \cup objs[o].prov
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Init == objs = <<>> /\ hold = <<>>
\* an object that nobody owns yet: integrators stay with whoever made them
Make(o, kind, prov, size) ==
  /\ o \notin DOMAIN objs
  /\ objs' = With(objs, o, [kind |-> kind, prov |-> prov, size |-> size, calls |-> 0]) /\ UNCHANGED hold
\* an object may be asked for its size when it is taken over
Wrap(h, o, seen) ==
  /\ h \notin DOMAIN hold /\ o \in DOMAIN objs
  /\ objs[o].kind # "integrator" => o \notin {hold[x] : x \in DOMAIN hold}
  /\ \A i \in 1..Len(seen) : objs[o].kind = "residual" /\ seen[i] = [obj |-> o, op |-> "getSize"]
  /\ hold' = With(hold, h, o)
  /\ UNCHANGED objs
Move(h, g) == h \in DOMAIN hold /\ h # g /\ g \notin DOMAIN hold /\ hold' = With(Without(hold, h), g, hold[h]) /\ UNCHANGED objs
Copy(h, g) == h \in DOMAIN hold /\ objs[hold[h]].kind = "integrator" /\ hold' = With(hold, g, hold[h]) /\ UNCHANGED objs
\* freed: objects that end with the holder
Drop(h, freed) ==
  /\ h \in DOMAIN hold
  /\ IF objs[hold[h]].kind = "integrator" THEN freed = {} /\ UNCHANGED objs
     ELSE freed = {hold[h]} /\ objs' = Without(objs, hold[h])
  /\ hold' = Without(hold, h)
\* a call through a holder: what the objects saw, what came back, and the
\* buffers after the call; boom: the object is to throw
Bare(seen) == [i \in 1..Len(seen) |-> [obj |-> seen[i].obj, op |-> seen[i].op]]
CallOn(o, op, boom, seen, res, before, after) ==
  LET n == objs[o].calls + 1 t == Target(op)
      \* asking for the size does not count
      same == op \in {"getSize", "getConcrete"} IN
  IF Provides(o, t)
  THEN /\ Bare(seen) = <<[obj |-> o, op |-> t]>>
       /\ IF boom THEN res = [k |-> "error", e |-> "thrown"] /\ after = before
          ELSE res = Answer(o, t, n) /\ after = Plus(before, Reply(o, n))
       /\ objs' = IF same THEN objs ELSE [objs EXCEPT ![o].calls = n]
  ELSE seen = <<>> /\ res = Default(t) /\ after = before /\ UNCHANGED objs
Call(h, op, boom, seen, res, before, after) ==
  /\ h \in DOMAIN hold /\ CallOn(hold[h], op, boom, seen, res, before, after) /\ UNCHANGED hold
\* every holder of a list is told once, in order
RECURSIVE Tell(_, _, _)
Tell(os, hs, op) == IF hs = <<>> THEN <<os, <<>>>>
                    ELSE LET o == hold[Head(hs)]
                             p == op \in os[o].prov
                             r == Tell(IF p THEN [os EXCEPT ![o].calls = @ + 1] ELSE os, Tail(hs), op)
                         IN <<r[1], (IF p THEN <<[obj |-> o, op |-> op]>> ELSE <<>>) \o r[2]>>
CallAll(hs, op, seen) ==
  /\ \A i \in 1..Len(hs) : hs[i] \in DOMAIN hold /\ objs[hold[hs[i]]].kind = "integrator"
  /\ LET t == Tell(objs, hs, op) IN objs' = t[1] /\ Bare(seen) = t[2]
  /\ UNCHANGED hold
\* the object itself, if it has the type asked for
Concrete(h, right, res) ==
  /\ h \in DOMAIN hold
  /\ res = IF right THEN [k |-> "num", v |-> hold[h]] ELSE [k |-> "error", e |-> "miso"]
  /\ UNCHANGED vars
\* an output that stands for a residual's entropy
Entropy(h, op, seen, res, before, after) ==
  /\ h \in DOMAIN hold /\ objs[hold[h]].kind = "residual"
  /\ CASE op = "calcOutput" -> CallOn(hold[h], "calcEntropy", FALSE, seen, res, before, after)
       [] op \in {"setInputs", "setOptions"} -> seen = <<>> /\ res = [k |-> "none"] /\ UNCHANGED objs
       [] op = "partials" -> seen = <<>> /\ res = [k |-> "num", v |-> 0] /\ UNCHANGED objs
  /\ UNCHANGED hold
=============================================================================
