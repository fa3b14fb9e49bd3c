----------------------------- MODULE WrapTrace -----------------------------
EXTENDS Wrap, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Set(s) == {s[i] : i \in 1..Len(s)}
State(x) == <<[name |-> "state", num |-> <<>>, vec |-> x]>>
\* what the object is to see of the arguments
Args == IF Ev.op = "Mult" THEN [Ev.args EXCEPT !.inputs = State(Ev.args.x), !.x = <<>>]
        ELSE IF Ev.op = "GetGradient" THEN [Ev.args EXCEPT !.inputs = State(Ev.args.x), !.x = <<>>, !.wrt = "state"]
        ELSE Ev.args
Saw == \A i \in 1..Len(Ev.seen) : Ev.seen[i].args = Args
Quiet == Ev.freed = <<>>
Nothing == Ev.seen = <<>>
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ objs' = <<>> /\ hold' = <<>>
  \/ Is("Make") /\ Make(Ev.o, Ev.kind, Set(Ev.prov), Ev.size)
  \/ Is("Wrap") /\ Quiet /\ Wrap(Ev.h, Ev.o, Bare(Ev.seen)) /\ (IF objs[Ev.o].kind = "residual" THEN Ev.height = objs[Ev.o].size /\ Ev.width = Ev.height ELSE TRUE)
  \/ Is("Move") /\ Quiet /\ Nothing /\ Move(Ev.h, Ev.g) /\ (IF objs[hold[Ev.h]].kind = "residual" THEN Ev.height = objs[hold[Ev.h]].size ELSE TRUE)
  \/ Is("Copy") /\ Quiet /\ Nothing /\ Copy(Ev.h, Ev.g)
  \/ Is("Drop") /\ Nothing /\ Len(Ev.freed) = Cardinality(Set(Ev.freed)) /\ Drop(Ev.h, Set(Ev.freed))
  \/ Is("Call") /\ Quiet /\ Saw /\ Call(Ev.h, Ev.op, Ev.boom, Ev.seen, Ev.res, Ev.before, Ev.after)
  \/ Is("CallAll") /\ Quiet /\ Saw /\ Ev.res = [k |-> "none"] /\ CallAll(Ev.hs, Ev.op, Ev.seen)
  \/ Is("Concrete") /\ Quiet /\ Nothing /\ Concrete(Ev.h, Ev.right, Ev.res)
  \/ Is("Entropy") /\ Quiet /\ Saw /\ Entropy(Ev.h, Ev.op, Ev.seen, Ev.res, Ev.before, Ev.after)
  \/ Is("End") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
