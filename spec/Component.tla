----------------------------- MODULE Component -----------------------------
(***************************************************************************)
(* The components that make solvers, functionals and mesh warpers parts of *)
(* an OpenMDAO model, over a solver whose physics are small integer maps:  *)
(* every value a component produces depends on every input it was given,   *)
(* under its name.                                                         *)
(*   nonlinear calls  answer for the inputs and outputs handed over now    *)
(*   linear calls     are those of the last linearization                  *)
(*   products         add to what they are handed, only where asked for    *)
(*   solve_linear     answers, whatever was there before                   *)
(* Derivatives the solver does not implement raise, unless partials are    *)
(* being checked.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT P
VARIABLE comp
None == [kind |-> "none"]
Make(kind, codes, S, size, partials, un, ranks) ==
  comp' = [kind |-> kind, codes |-> codes, S |-> S, size |-> size, partials |-> partials, un |-> un, ranks |-> ranks, lin |-> <<>>]
Is(k) == comp.kind = k
\* ---- the solver's physics
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE Sum(f, n - 1) + f[n]
Weigh(v) == Sum([k \in 1..Len(v) |-> k * v[k]], Len(v))
RECURSIVE Over(_, _, _)
Over(S, codes, in) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN codes[n] * Weigh(in[n]) + Over(S \ {n}, codes, in)
H(c, in) == Over(DOMAIN c.codes, c.codes, in) % P
Residual(c, in) == [j \in 1..c.size |-> H(c, in) * j + j]
Where(S, k) == CHOOSE i \in 1..Len(S) : S[i] = k
Solved(c, in) ==
  IF c.kind = "warper"
  THEN [k \in 1..c.size |-> IF \E i \in 1..Len(c.S) : c.S[i] = k THEN in["surf_mesh_coords"][Where(c.S, k)]
                            ELSE (Weigh(in["surf_mesh_coords"]) * k) % P]
  ELSE [j \in 1..c.size |-> (H(c, in) * j + 2 * j) % P]
Output(c, in) == [j \in 1..c.size |-> H(c, in) * j + 1]
Entry(c, in, wrt, j, k) == (H(c, in) + c.codes[wrt] + j) * k
Times(c, in, wrt, d) == [j \in 1..c.size |-> Sum([k \in 1..Len(d) |-> Entry(c, in, wrt, j, k) * d[k]], Len(d))]
TimesT(c, in, wrt, b, n) == [k \in 1..n |-> Sum([j \in 1..c.size |-> Entry(c, in, wrt, j, k) * b[j]], c.size)]
Adjoint(c, in, b) == [j \in 1..c.size |-> (H(c, in) + 5 * j) * Weigh(b)]
\* ---- what products give: ask the names asked for; the ranks' shares (each a multiple) are summed
Plus(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Share(c) == IF c.kind = "functional" /\ c.ranks > 1 THEN 3 ELSE 1
Scaled(s, v) == [i \in 1..Len(v) |-> s * v[i]]
RECURSIVE Forward(_, _, _, _, _)
Forward(c, in, ask, dots, acc) ==
  IF ask = {} THEN acc ELSE LET n == CHOOSE n \in ask : TRUE IN Forward(c, in, ask \ {n}, dots, Plus(acc, Scaled(Share(c), Times(c, in, n, dots[n]))))
Backward(c, in, n, bar, acc) == Plus(acc, Scaled(Share(c), TimesT(c, in, n, bar, Len(acc))))
Zero(v) == \A i \in 1..Len(v) : v[i] = 0
Init == comp = None
\* ---- steps
Nonlinear == comp.kind # "none" /\ UNCHANGED comp
Linearize(in) == comp.kind \in {"state", "warper"} /\ comp' = [comp EXCEPT !.lin = in]
Linear == comp.kind \in {"state", "warper"} /\ comp.lin # <<>> /\ UNCHANGED comp
=============================================================================
