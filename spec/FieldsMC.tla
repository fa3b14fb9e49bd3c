------------------------------ MODULE FieldsMC ------------------------------
(* Two ranks, three true and five local degrees of freedom (one shared with  *)
(* the opposite sign, one constrained to the mean of two others).            *)
EXTENDS Fields, FiniteSets
I(n) == IF n >= 0 THEN DInt(n) ELSE DNeg(DInt(0 - n))
S3 == [P |-> << << <<1, I(1)>> >>, << <<2, I(1)>> >>, << <<2, I(-1)>> >>, << <<3, I(1)>> >>, << <<1, DRat(1, 2)>>, <<3, DRat(1, 2)>> >> >>,
       R |-> << << <<1, I(1)>> >>, << <<2, I(1)>> >>, << <<4, I(1)>> >> >>, nl |-> 5, nt |-> 3]
S1 == [P |-> << << <<1, I(1)>> >>, << <<1, I(1)>> >> >>, R |-> << << <<1, I(1)>> >> >>, nl |-> 2, nt |-> 1]
Shapes == {S3, S1}
Vals == {I(-1), I(2)}
Vecs(n) == IF n = 3 THEN {<<a, b, c>> : a, b, c \in Vals} ELSE IF n = 1 THEN {<<a>> : a \in Vals}
           ELSE IF n = 2 THEN {<<a, b>> : a, b \in Vals} ELSE {<<a, b, a, b, c>> : a, b, c \in Vals}
Names == {"a", "b"}
Own == DOMAIN F \cap Names
VARIABLE last       \* the last thing distributed or projected: <<name, true values>>
mcv == <<F, meshes, last>>
MCMake == /\ \E n \in Names, k \in {"state", "dual"}, s \in Shapes : n \notin DOMAIN F /\ Make(n, k, s, n, 0)
          /\ last' = << >>
MCCopy == (\E n \in Names, o \in Own, k \in {"state", "dual"} : n # o /\ CopySpace(n, o, k)) /\ last' = << >>
MCMove == \E n \in Names, o \in Own : Move(n, o) /\ last' = (IF last # << >> /\ last[1] = o THEN <<n, last[2]>> ELSE << >>)
MCDistribute == \E n \in DOMAIN F : \E t \in Vecs(F[n].shape.nt) : Distribute(n, t) /\ last' = <<n, t>>
MCPoke == \E n \in Own : \E v \in Vecs(F[n].shape.nl) : Poke(n, v) /\ last' = << >>
MCProject == \E n \in Own : \E t \in Vecs(F[n].shape.nt) : F[n].kind = "state" /\ Project(n, Apply(F[n].shape.P, t)) /\ last' = <<n, t>>
MCCollect == (\E n \in DOMAIN F : Look(n)) /\ UNCHANGED last
MCSet == \/ /\ meshes = << >> /\ last' = << >>
            /\ LET f(k, s) == [kind |-> k, shape |-> s, val |-> Zeros(s.nl), label |-> "", at |-> 1] IN
               Solver("S", "S.state" :> f("state", S1) @@ "S.dirichlet_bc" :> f("state", S1) @@ "S.residual" :> f("dual", S1) @@ "S.mesh_coords" :> f("state", S1))
         \/ meshes # << >> /\ \E n \in {"state", "mesh_coords"}, t \in Vecs(1) : SetField("S", n, Apply(S1.P, t)) /\ last' = <<"S." \o n, t>>
MCNext == MCMake \/ MCCopy \/ MCMove \/ MCDistribute \/ MCPoke \/ MCProject \/ MCCollect \/ MCSet
MCInit == F = << >> /\ meshes = << >> /\ last = << >>
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Cardinality(DOMAIN F) <= 5 /\ TLCGet("level") < 8
\* what was distributed (or projected) is what is collected
RoundTrip == last # << >> => VSame(Gather(F[last[1]]), last[2])
\* the shapes: true values survive the way to local ones and back, both ways
Back == \A s \in Shapes : \A t \in Vecs(s.nt) :
  /\ VSame(Apply(s.R, Apply(s.P, t)), t) /\ VSame(ApplyT(s.P, s.nt, ApplyT(s.R, s.nl, t)), t)
\* duals act on states the same way before and after collecting
Duality == \A s \in Shapes : \A t \in Vecs(s.nt) : \A v \in Vecs(s.nl) :
  LET d == [kind |-> "dual", shape |-> s, val |-> v]  f == [kind |-> "state", shape |-> s, val |-> Zeros(s.nl)] IN
  DEq(VDot(t, Gather(d)), VDot(Spread(f, t), v))
\* one step changes at most the field it names (and boundary values with the state)
Frame == [][LET common == DOMAIN F \cap DOMAIN F'
                changed == {n \in common : F[n] # F'[n]} IN
            changed \subseteq (IF last' # << >> THEN {last'[1]} \cup (IF last'[1] = "S.state" THEN {"S.dirichlet_bc"} ELSE {}) ELSE changed)
            /\ Cardinality(changed) <= 2]_mcv
=============================================================================
