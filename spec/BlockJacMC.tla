------------------------------ MODULE BlockJacMC ------------------------------
EXTENDS BlockJac, FiniteSets, TLC
I(n) == DInt(n)
Sols == {"s", "t"}
Offs == {<<1, 2, 3>>, <<1, 3>>, <<1, 2, 4>>}
Sz(k) == pc.off[k + 1] - pc.off[k]
Mk(n, v) == [i \in 1..n |-> [j \in 1..n |-> I(v + i * 2 + j)]]
MCInit == Init
Free == {s \in Sols : s \notin dead /\ (pc = <<>> \/ \A k \in 1..NB : pc.sol[k] # <<s>>)}
MCNext ==
  \/ pc = <<>> /\ dead = {} /\ \E o \in Offs, w \in BOOLEAN : New(o, w)
  \/ pc # <<>> /\ \E s \in Free, k \in 1..NB : Set(k, <<s>>)
  \/ pc # <<>> /\ \E k \in 1..NB : Set(k, <<>>)
  \/ pc # <<>> /\ Used # {} /\ (\E v \in 0..1 :
        /\ mats' = [s \in DOMAIN mats \cup {pc.sol[k][1] : k \in Used} |->
             IF \E k \in Used : pc.sol[k] = <<s>> THEN <<Mk(Sz(CHOOSE k \in Used : pc.sol[k] = <<s>>), v)>> ELSE mats[s]]
        /\ UNCHANGED <<pc, dead>>)
  \/ pc # <<>> /\ Delete({})
MCSpec == MCInit /\ [][MCNext]_vars
N == pc.off[NB + 1] - 1
Ok == pc # <<>> /\ \A k \in Used : pc.sol[k][1] \in DOMAIN mats /\ Len(mats[pc.sol[k][1]][1]) = Sz(k)
All(x, tr) == LET RECURSIVE F(_) F(k) == IF k = 0 THEN <<>> ELSE F(k - 1) \o Result(x, k, tr) IN F(NB)
Vecs == {[i \in 1..N |-> IF i = j THEN I(2) ELSE I(0)] : j \in 1..N}
\* a block of the result depends on the same block of the argument only
Local == Ok => \A k \in 1..NB, x \in Vecs : \A z \in Vecs : Part(x, k) = Part(z, k) => Result(x, k, FALSE) = Result(z, k, FALSE)
\* transposed application is the adjoint
Adjoint == Ok => \A x \in Vecs, z \in Vecs : DEq(VDot(z, All(x, FALSE)), VDot(All(z, TRUE), x))
\* a destroyed solver is never in use, and only owned ones are destroyed
NoDangling == pc # <<>> => \A k \in 1..NB : pc.sol[k] = <<>> \/ pc.sol[k][1] \notin dead
=============================================================================
