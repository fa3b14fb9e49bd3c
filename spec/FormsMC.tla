------------------------------ MODULE FormsMC ------------------------------
(* A small residual, load and functional: polynomials of two state entries,  *)
(* a field m and a scalar c, the second state entry on the boundary.          *)
EXTENDS Forms, FiniteSets, Integers
VARIABLE hist      \* every set of inputs given so far
mcv == <<form, val, lin, hist>>
I(n) == IF n >= 0 THEN DInt(n) ELSE DNeg(DInt(0 - n))
F3 == [kind : {"residual", "load", "functional"}, fields : {<<"state", "m">>}, scalars : {<<"c">>}, ess : {<<>>, <<2>>}, n : {2}, bc : {TRUE}]
Forms3 == {IF f.kind = "functional" THEN [f EXCEPT !.n = 1, !.ess = <<>>] ELSE f : f \in F3}
\* the numbers behind the identities, moved by e along wrt
X(v, wrt, e) == [s |-> <<v["state"] + (IF wrt = "state" THEN e ELSE 0), 2 * v["state"] - 1 + (IF wrt = "state" THEN 2 * e ELSE 0)>>,
                 m |-> 1 - v["m"] + (IF wrt = "m" THEN e ELSE 0), c |-> 2 + v["c"] + (IF wrt = "c" THEN e ELSE 0)]
R(x) == <<x.c * x.m * x.s[1] * x.s[1] + x.s[1] * x.s[2], x.c * x.s[2] * x.m * x.m>>
At(v, wrt, e) == LET x == X(v, wrt, e) r == R(x) IN
  CASE form.kind = "functional" -> <<r[1] + r[2]>>
    [] form.kind = "residual" -> <<r[1], IF form.ess = <<2>> THEN x.s[2] - 3 ELSE r[2]>>
    [] OTHER -> <<r[1], IF form.ess = <<2>> THEN 0 ELSE r[2]>>
\* its exact derivative along wrt (times 12)
Slope12(v, wrt, i) == 8 * (At(v, wrt, 1)[i] - At(v, wrt, -1)[i]) - (At(v, wrt, 2)[i] - At(v, wrt, -2)[i])
Exact(v, wrt, i) == LET x == X(v, wrt, 0) a == x.s[1] b == x.s[2] IN
  LET r1 == CASE wrt = "state" -> 2 * x.c * x.m * a + b + 2 * a [] wrt = "m" -> x.c * a * a [] OTHER -> x.m * a * a
      r2 == CASE wrt = "state" -> 2 * x.c * x.m * x.m [] wrt = "m" -> 2 * x.c * b * x.m [] OTHER -> b * x.m * x.m
      e2 == IF form.ess # <<2>> THEN r2 ELSE IF form.kind = "residual" /\ wrt = "state" THEN 2 ELSE 0 IN
  IF form.kind = "functional" THEN r1 + r2 ELSE <<r1, e2>>[i]
Vec(u) == [i \in 1..Len(u) |-> I(u[i])]
Names == {"state", "m", "c"}
Some == UNION {[S -> {1, 2}] : S \in {{}, {"m"}, {"c"}}} \cup {[n \in Names |-> k] : k \in 1..2} \cup {[n \in {"state"} |-> 2]}
MCForm == form.kind = "none" /\ (\E f \in Forms3 : Form(f)) /\ hist' = <<>>
MCSet == form.kind # "none" /\ (\E ch \in Some : Set(ch) /\ hist' = Append(hist, ch))
MCValue == form.kind # "none" /\ (\E ch \in Some : Value(ch) /\ hist' = Append(hist, ch))
MCLin == form.kind = "residual" /\ (\E ch \in Some : Lin(ch) /\ hist' = Append(hist, ch))
MCDeriv == form.kind # "none" /\ (\E w \in Names : Deriv(w, None)) /\ UNCHANGED hist
MCAdjoint == form.kind = "residual" /\ Adjoint /\ UNCHANGED hist
MCNext == MCForm \/ MCSet \/ MCValue \/ MCLin \/ MCDeriv \/ MCAdjoint
MCInit == Init /\ hist = <<>>
MCSpec == MCInit /\ [][MCNext]_mcv
Bound == Len(hist) <= 2
\* an input has the value it was last given, whatever came between
Last(n) == LET k == {i \in 1..Len(hist) : n \in DOMAIN hist[i]} IN
           IF k = {} THEN 0 ELSE hist[CHOOSE i \in k : \A j \in k : j <= i][n]
Keeps == form.kind # "none" => \A n \in Names : val[n] = Last(n)
\* given in two calls or in one, in either order
Commutes == \A a, b \in Some : DOMAIN a \cap DOMAIN b = {} => b @@ (a @@ [n \in Names |-> 0]) = (a @@ b) @@ [n \in Names |-> 0]
\* the value at val is a value, another is not
Values == form.kind # "none" =>
  LET u == At(val, "", 0)
      st == <<I(val["state"]), I(2 * val["state"] - 1)>>
      bc == <<I(0), I(3)>>
      pre == IF form.kind = "load" THEN <<I(5), I(-4)>> ELSE Vec([i \in 1..form.n |-> 0])
      put(w) == [i \in 1..form.n |-> DAdd(pre[i], I(w[i]))] IN
  /\ IsValue(pre, put(u), Vec(u), st, bc)
  /\ \A i \in 1..form.n : ~IsValue(pre, put([u EXCEPT ![i] = @ + 1]), Vec(u), st, bc)
\* the differences are exact for these polynomials; derivatives elsewhere are not taken for them
Slopes == form.kind # "none" => \A w \in Names : (form.kind = "residual" /\ w = "state" => lin # None) =>
  LET v == IF form.kind = "residual" /\ w = "state" THEN lin ELSE val
      F == [k \in 1..4 |-> Vec(At(v, w, <<1, -1, 2, -2>>[k]))]
      at(p) == [i \in 1..form.n |-> Exact(p, w, i)] IN
  /\ \A i \in 1..form.n : Slope12(v, w, i) = 12 * Exact(v, w, i)
  /\ \A y \in {-1} : \A z \in {0, 3} :
       LET Y == IF form.n = 1 THEN <<I(y)>> ELSE <<I(y), I(z)>>
           g(p) == IF form.n = 1 THEN y * at(p)[1] ELSE y * at(p)[1] + z * at(p)[2] IN
       /\ IsDeriv(<<I(1)>>, <<I(7)>>, <<I(7 + g(v))>>, Y, F, I(1))
       /\ \A p \in {[n \in Names |-> k] : k \in 0..2} : g(p) # g(v) => ~IsDeriv(<<I(1)>>, <<I(7)>>, <<I(7 + g(p))>>, Y, F, I(1))
=============================================================================
