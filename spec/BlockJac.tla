------------------------------- MODULE BlockJac -------------------------------
(***************************************************************************)
(* The block-Jacobi preconditioner: unknowns split at off[1] < ... <        *)
(* off[m+1] (1-based starts, last is n+1); block k has a solver or none.    *)
(* A stand-in solver s, once set up for a matrix B, applies B (transposed:  *)
(* B^T), adding to what it finds in its result if it is iterative.          *)
(***************************************************************************)
EXTENDS ResModel
VARIABLES pc,    \* preconditioner [off, sol: block -> <<>> or <<solver>>, own], or <<>>
          mats,  \* solver -> matrix it is set up for, or <<>>
          dead   \* solvers destroyed
vars == <<pc, mats, dead>>
Init == pc = <<>> /\ mats = <<>> /\ dead = {}
Reset == pc' = <<>> /\ mats' = <<>> /\ dead' = {}
NB == Len(pc.off) - 1
New(off, own) == /\ pc' = [off |-> off, own |-> own, sol |-> [k \in 1..(Len(off) - 1) |-> <<>>]] /\ UNCHANGED <<mats, dead>>
Solver(s, B) == mats' = [t \in DOMAIN mats \cup {s} |-> IF t = s THEN <<B>> ELSE mats[t]] /\ UNCHANGED <<pc, dead>>
\* the solver takes the place of the one before, which is destroyed if owned
Set(k, s) ==
  /\ pc' = [pc EXCEPT !.sol[k] = s]
  /\ dead' = dead \cup (IF pc.own THEN {pc.sol[k][j] : j \in DOMAIN pc.sol[k]} ELSE {})
  /\ UNCHANGED mats
Used == {k \in 1..NB : pc.sol[k] # <<>>}
\* every solver is set up for the diagonal block it stands at
SetOp(what, Bs, err) ==
  /\ UNCHANGED <<pc, dead>>
  /\ IF what = "other" THEN err = "MISOException" /\ UNCHANGED mats
     ELSE /\ err = ""
          /\ mats' = [s \in DOMAIN mats |-> IF \E k \in Used : pc.sol[k] = <<s>>
                                            THEN <<Bs[CHOOSE k \in Used : pc.sol[k] = <<s>>]>> ELSE mats[s]]
Part(x, k) == SubSeq(x, pc.off[k], pc.off[k + 1] - 1)
Result(x, k, tr) ==
  IF pc.sol[k] = <<>> THEN Part(x, k)
  ELSE LET B == mats[pc.sol[k][1]][1] IN IF tr THEN MatTVec(B, Part(x, k)) ELSE MatVec(B, Part(x, k))
Ready == \A k \in Used : mats[pc.sol[k][1]] # <<>>
Mult(x, y, tr, xafter) ==
  /\ Ready /\ Len(y) = Len(x) /\ VSame(xafter, x)
  /\ \A k \in 1..NB : VClose(Part(y, k), Result(x, k, tr), N0, DMul(DDec("1e-13"), VNormInf(Result(x, k, tr))))
  /\ UNCHANGED vars
Shape(nb, blocks) == nb = NB /\ blocks = pc.sol /\ UNCHANGED vars
\* destruction takes the solvers it owns with it
Delete(gone) ==
  /\ dead' = dead \cup (IF pc.own THEN {pc.sol[k][1] : k \in Used} ELSE {})
  /\ pc' = <<>> /\ UNCHANGED mats
Dead(d) == d = dead /\ UNCHANGED vars
=============================================================================
