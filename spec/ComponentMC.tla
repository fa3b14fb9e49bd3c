---------------------------- MODULE ComponentMC ----------------------------
\* Small sizes, every value: linear calls are those of the last
\* linearization, products are transposes of each other and linear, the
\* answer to nothing is nothing, and every input matters.
EXTENDS Component, TLC
VARIABLE last
V == {-1, 0, 1}
Vecs(n) == [1..n -> V]
In == {[state |-> x, a |-> y] : x \in Vecs(2), y \in Vecs(1)}
WIn == {[state |-> x, surf_mesh_coords |-> y] : x \in {<<0, 0>>, <<1, -1>>}, y \in Vecs(1)}
All == IF comp.kind = "warper" THEN WIn ELSE In
MCInit == Init /\ last = <<>>
MCMake == Is("none") /\ UNCHANGED last /\
  \/ \E k \in {"state", "functional"} : \E r \in {1, 2} : Make(k, [state |-> 2, a |-> 3], <<>>, 2, FALSE, {}, r)
  \/ Make("warper", [state |-> 2, surf_mesh_coords |-> 3], <<2>>, 2, FALSE, {}, 1)
MCCall == Nonlinear /\ UNCHANGED last
MCLin == \E in \in All : Linearize(in) /\ last' = in
MCNext == MCMake \/ MCCall \/ MCLin
MCSpec == MCInit /\ [][MCNext]_<<comp, last>>
Kept == comp.kind \in {"state", "warper"} => comp.lin = last
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Names == DOMAIN comp.codes
Fixed == IF comp.kind = "warper" THEN {[state |-> <<1, 0>>, surf_mesh_coords |-> <<1>>]} ELSE {[state |-> <<1, 0>>, a |-> <<-1>>], [state |-> <<0, 0>>, a |-> <<0>>]}
Transposed == comp.kind # "none" => \A in \in Fixed : \A n \in Names : \A d \in Vecs(Len(in[n])), b \in Vecs(2) :
   Dot(b, Forward(comp, in, {n}, [m \in {n} |-> d], <<0, 0>>)) = Dot(d, Backward(comp, in, n, b, [k \in 1..Len(d) |-> 0]))
Nothing == comp.kind # "none" => \A in \in Fixed : Zero(Adjoint(comp, in, <<0, 0>>)) /\ \A n \in Names :
   Zero(Forward(comp, in, {n}, [m \in {n} |-> [k \in 1..Len(in[n]) |-> 0]], <<0, 0>>)) /\ Zero(Backward(comp, in, n, <<0, 0>>, [k \in 1..Len(in[n]) |-> 0]))
Added == comp.kind # "none" => \A in \in Fixed : \A acc \in Vecs(2) : \A d \in {<<1, 0>>, <<-1, 1>>} :
   Forward(comp, in, {"state"}, [state |-> d], acc) = Plus(acc, Forward(comp, in, {"state"}, [state |-> d], <<0, 0>>))
Matters == comp.kind \in {"state", "functional"} => \A x, y \in In :
   (x # y /\ (\A n \in Names : n # "a" => x[n] = y[n])) => Residual(comp, x) # Residual(comp, y) /\ Output(comp, x) # Output(comp, y)
Follows == comp.kind = "warper" => \A in \in WIn : Solved(comp, in)[2] = in.surf_mesh_coords[1] /\ \A o \in WIn : o.surf_mesh_coords = in.surf_mesh_coords => Solved(comp, in) = Solved(comp, o)
=============================================================================
