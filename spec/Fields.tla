------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Finite element fields on one or more ranks.  A field has a shape and    *)
(* local values.  The shape says how the local values follow from the true *)
(* ones (rows of P: position and weight) and where the true ones are found *)
(* among the local ones (rows of R); the local values of all ranks and the *)
(* true values of all ranks stand in a row.  A state distributes with P    *)
(* and collects with R, a dual distributes with the transpose of R and     *)
(* collects with the transpose of P.  Solvers own named fields; the field  *)
(* "mesh_coords" is where their mesh is.                                   *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences, TLC
VARIABLES F,        \* name -> [kind, shape, val, label (its own name), at (its mesh)]
          meshes    \* solvers: the name of the field that is their mesh
vars == <<F, meshes>>
Zero == DInt(0)
Zeros(n) == [i \in 1..n |-> Zero]
Apply(rows, v) == [i \in 1..Len(rows) |->
  LET r == rows[i] IN IF Len(r) = 0 THEN Zero ELSE VDot([k \in 1..Len(r) |-> r[k][2]], [k \in 1..Len(r) |-> v[r[k][1]]])]
\* column j of the rows, as pairs of row and weight
RECURSIVE Col(_, _, _)
Col(rows, j, i) == IF i > Len(rows) THEN << >>
  ELSE LET hit == SelectSeq(rows[i], LAMBDA e : e[1] = j) IN [k \in 1..Len(hit) |-> <<i, hit[k][2]>>] \o Col(rows, j, i + 1)
ApplyT(rows, n, v) == Apply([j \in 1..n |-> Col(rows, j, 1)], v)

Spread(f, t) == IF f.kind = "state" THEN Apply(f.shape.P, t) ELSE ApplyT(f.shape.R, f.shape.nl, t)
Gather(f) == IF f.kind = "state" THEN Apply(f.shape.R, f.val) ELSE ApplyT(f.shape.P, f.shape.nt, f.val)

\* what a field asked for has to be
Family(basis, gd) ==
  CASE basis \in {"CSBP", "csbp"} -> "SBP"
    [] basis \in {"DSBP", "dsbp"} \/ (gd /\ basis \notin {"CSBP", "csbp"}) -> "DSBP"
    [] ~gd /\ basis \in {"ND", "nd", "nedelec"} -> "ND"
    [] ~gd /\ basis \in {"RT", "rt"} -> "RT"
    [] ~gd /\ basis \in {"H1", "h1", "CG", "cg"} -> "H1"
    [] ~gd /\ basis \in {"L2", "l2", "DG", "dg"} -> "L2"
Collection(fam, dim, p) == fam \o "_" \o ToString(dim) \o "D_P" \o ToString(p)
Shaped(s, fam, dim, p, states, byvdim) ==
  /\ s.coll = Collection(fam, dim, p) /\ s.vdim = states /\ s.ordering = IF byvdim THEN 1 ELSE 0
  /\ Len(s.P) = s.nl /\ Len(s.R) = s.nt

Set(n, f) == F' = [k \in DOMAIN F \cup {n} |-> IF k = n THEN f ELSE F[k]] /\ UNCHANGED meshes
Value(n, v) == n \in DOMAIN F /\ Set(n, [F[n] EXCEPT !.val = v])
Forget == F' = << >> /\ meshes' = << >>
Make(n, kind, s, label, at) == Set(n, [kind |-> kind, shape |-> s, val |-> Zeros(s.nl), label |-> label, at |-> at])
\* a field on the space of another has its own values
CopySpace(n, from, kind) == from \in DOMAIN F /\ Make(n, kind, F[from].shape, n, F[from].at)
Move(n, from) ==
  /\ from \in DOMAIN F /\ n # from
  /\ F' = [k \in (DOMAIN F \ {from}) \cup {n} |-> IF k = n THEN F[from] ELSE F[k]]
  /\ UNCHANGED meshes
Distribute(n, t) == n \in DOMAIN F /\ Value(n, Spread(F[n], t))
Poke(n, v) == Value(n, v)
Project(n, nodal) == F[n].kind = "state" /\ Value(n, nodal)
Look(n) == n \in DOMAIN F /\ UNCHANGED vars
\* a solver with its fields: their names, kinds, shapes and initial values
Solver(id, fs) == /\ F' = [k \in DOMAIN F \cup DOMAIN fs |-> IF k \in DOMAIN fs THEN fs[k] ELSE F[k]]
                  /\ meshes' = [k \in DOMAIN meshes \cup {id} |-> k \o ".mesh_coords"]
\* setting a field of a solver; the state also sets the boundary values
SetField(id, name, nodal) ==
  LET ns == {id \o "." \o name} \cup (IF name = "state" THEN {id \o ".dirichlet_bc"} ELSE {}) IN
  /\ ns \subseteq DOMAIN F /\ UNCHANGED meshes
  /\ F' = [k \in DOMAIN F |-> IF k \in ns THEN [F[k] EXCEPT !.val = nodal] ELSE F[k]]
=============================================================================
