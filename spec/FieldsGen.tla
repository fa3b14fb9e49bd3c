----------------------------- MODULE FieldsGen ------------------------------
\* Histories: fields are made, put on the spaces of others, moved, distributed,
\* collected, overwritten, projected and looked at, beside the fields of
\* solvers.
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS D
VARIABLES h, done, own, pde
vv == <<h, done, own, pde>>
Names == {"a", "b", "c"}
Ids == {"S", "T"}
Fams == {"H1", "L2", "ND", "RT", "csbp", "dsbp"}
Fields(p) == {"state", "dirichlet_bc", "adjoint", "residual", "mesh_coords", "ext"}
All == own \cup {i \o "." \o f : i \in pde, f \in Fields(1)}
Init == h = << >> /\ done = FALSE /\ own = {} /\ pde = {}
Add(o) == h' = Append(h, o) /\ UNCHANGED done
Same == UNCHANGED <<own, pde>>
Step ==
  \/ \E n \in Names, b \in Fams, k \in {"state", "dual"} : n \notin own /\ Len(h) <= D - 2 /\ Add(<<"make", n, b, k>>) /\ own' = own \cup {n} /\ UNCHANGED pde
  \/ \E n \in Names, o \in All, k \in {"state", "dual"} : n # o /\ Len(h) <= D - 2 /\ Add(<<"copy", n, o, k>>) /\ own' = own \cup {n} /\ UNCHANGED pde
  \/ \E n \in Names, o \in own : n # o /\ Add(<<"move", n, o>>) /\ own' = (own \ {o}) \cup {n} /\ UNCHANGED pde
  \/ \E n \in All, op \in {"dist", "coll", "poke", "proj", "eval"} : Add(<<op, n>>) /\ Same
  \/ \E i \in Ids, b \in Fams : i \notin pde /\ Len(h) <= D - 2 /\ Add(<<"solver", i, b>>) /\ pde' = pde \cup {i} /\ UNCHANGED own
  \/ \E i \in pde, f \in {"state", "dirichlet_bc", "adjoint", "mesh_coords", "ext"}, op \in {"set", "err"} : Add(<<op, i, f>>) /\ Same
  \/ \E i \in pde, op \in {"coords", "size", "start", "swap"} : Add(<<op, i>>) /\ Same
  \/ Add(<<"file">>) /\ Same
Next == ~done /\ IF Len(h) >= D THEN done' = TRUE /\ UNCHANGED <<h, own, pde>> ELSE Step
Spec == Init /\ [][Next]_vv
Emit == done => PrintT("SCN" \o ToJson(h))
=============================================================================
