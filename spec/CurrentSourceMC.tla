-------------------------- MODULE CurrentSourceMC --------------------------
\* Small integers: a load that is handed out is the one of the densities and
\* the mesh of that moment; it is linear in the densities, and the derivative
\* by a group is that of the load; densities that were stored come back.
EXTENDS CurrentSource, Integers, TLC
VARIABLE last
Gs == {"a", "b"}
MTimes(k, v) == [i \in 1..Len(v) |-> k * v[i]]
MPlus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
MInner(a, b) == a[1] * b[1] + a[2] * b[2]
MDir(d, s, p, x) == IF s = "x" THEN <<1, 0>> ELSE <<0, p.n * x>>
MNull(d) == <<0, 0>>
MPar == [n |-> 1, len |-> 1]
Where == [at \in {1, 2} |-> [g |-> IF at = 1 THEN "a" ELSE "b", s |-> IF at = 1 THEN "x" ELSE "st"]]
Units(m, p) == [g \in Gs |-> IF g = "a" THEN <<m, 1>> ELSE <<p.n, m>>]
CdIn == {<<>>, [a |-> 2], [b |-> 0], [a |-> 0, b |-> 2]}
ParIn == {<<>>, [n |-> 2], [n |-> 1]}
VARIABLE mesh
MCInit == Init /\ last = <<>> /\ mesh = 1
MCBuild == ~Has /\ \E ess \in {{}, {2}} : LBuild(3, Gs, Where, TRUE, Units(1, DefaultPar), ess) /\ last' = <<>> /\ UNCHANGED mesh
MCSet == HasLoad /\ \E c \in CdIn, p \in ParIn : LSet(c, p, Units(mesh, Over(par, p))) /\ last' = <<"set">> /\ UNCHANGED mesh
MCMove == HasLoad /\ \E m \in {1, 2} : mesh' = m /\ LMove(Units(m, par)) /\ last' = <<"move">>
MCAdd == HasLoad /\ LAssemble /\ last' = <<"add", load'.held>> /\ UNCHANGED mesh
MCVjp == HasLoad /\ LVjp /\ last' = <<"vjp">> /\ UNCHANGED mesh
MCStore == Has /\ Store /\ NoLoad /\ last' = <<"store", val>> /\ UNCHANGED mesh
MCClear == Has /\ last # <<>> /\ last[1] = "store" /\ Clear /\ load' = [load EXCEPT !.stale = TRUE] /\ last' = <<"clear", last[2]>> /\ UNCHANGED mesh
MCRestore == Has /\ last # <<>> /\ last[1] = "clear" /\ Restore /\ load' = [load EXCEPT !.stale = TRUE] /\ last' = <<"restore", last[2]>> /\ UNCHANGED mesh
MCNext == MCBuild \/ MCSet \/ MCMove \/ MCAdd \/ MCVjp \/ MCStore \/ MCClear \/ MCRestore
MCSpec == MCInit /\ [][MCNext]_<<vars, last, mesh>>
Fresh == HasLoad /\ ~load.stale => load.held = Free(load.ess, Sum(val, Units(mesh, par), Gs))
Handed == last # <<>> /\ last[1] = "add" => last[2] = LoadOf(val)
Restored == last # <<>> /\ last[1] = "restore" => val = last[2]
Cleared == last # <<>> /\ last[1] = "clear" => \A a \in {1, 2}, x \in {1, 2} : Density(a, x) = <<0, 0>>
Linear == HasLoad => \A g \in Gs, k \in {1, 3}, bar \in {<<1, 0>>, <<1, 2>>} :
  MInner(bar, LoadOf([val EXCEPT ![g] = @ + k])) - MInner(bar, LoadOf(val)) = k * GroupBar(bar, g)
Unmarked == Has => Density(3, 1) = <<0, 0>>
=============================================================================
