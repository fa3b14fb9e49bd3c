------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Transferring a field to the nodes of another space, element by element: *)
(*   "scalar"  its value                  u = sum s_k shape_k              *)
(*   "vector"  a Nedelec field            J^-T sum s_k v_k                 *)
(*   "curl"    in 3D of a Nedelec field   J sum s_k c_k / det J            *)
(*             in 2D of a scalar field    (-du/dy, du/dx): the state is   *)
(*             minus the potential, as the residual adds its currents      *)
(*   "mag"     the length of that curl                                     *)
(* J is the Jacobian of the map of the element, from the mesh coordinates. *)
(* What is given by name (state, mesh coordinates) stays given; reverse    *)
(* mode is relative to what is given and accumulates.  Stated over any     *)
(* field, like the flow controller.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Plus(_, _), Times(_, _), Minus(_), Recip(_), Num(_), Length(_)
VARIABLE op
None == [kind |-> "none"]
Build(kind, dim, els, coords, state) == op' = [kind |-> kind, dim |-> dim, els |-> els, coords |-> coords, state |-> state]
Given(o, in) == [o EXCEPT !.coords = IF "mesh_coords" \in DOMAIN in THEN in["mesh_coords"] ELSE o.coords,
                          !.state = IF "state" \in DOMAIN in THEN in["state"] ELSE o.state]
Has == op.kind # "none"
Give(in) == Has /\ op' = Given(op, in)
RECURSIVE Total(_, _)
Total(f(_), n) == IF n = 0 THEN Num(0) ELSE Plus(Total(f, n - 1), f(n))
\* ---- maps of an element
Det(J) == IF Len(J) = 2 THEN Plus(Times(J[1][1], J[2][2]), Minus(Times(J[1][2], J[2][1])))
          ELSE LET Minor(a, b) == Plus(Times(J[2][a], J[3][b]), Minus(Times(J[2][b], J[3][a])))
               IN Plus(Plus(Times(J[1][1], Minor(2, 3)), Minus(Times(J[1][2], Minor(1, 3)))), Times(J[1][3], Minor(1, 2)))
\* cofactors: Cof(J)[i][j] / Det(J) is the inverse transposed
Nx(i) == (i % 3) + 1
Cof(J) == IF Len(J) = 2 THEN <<<<J[2][2], Minus(J[2][1])>>, <<Minus(J[1][2]), J[1][1]>>>>
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> Plus(Times(J[Nx(i)][Nx(j)], J[Nx(Nx(i))][Nx(Nx(j))]),
                                                    Minus(Times(J[Nx(i)][Nx(Nx(j))], J[Nx(Nx(i))][Nx(j)])))]]
Apply(A, v) == [i \in 1..Len(A) |-> Total(LAMBDA j : Times(A[i][j], v[j]), Len(v))]
Over(v, d) == [i \in 1..Len(v) |-> Times(v[i], Recip(d))]
Covariant(J, v) == Over(Apply(Cof(J), v), Det(J))
Contravariant(J, v) == Over(Apply(J, v), Det(J))
Turned(g) == <<Minus(g[2]), g[1]>>
Value(kind, dim, J, v) ==
  IF kind = "scalar" THEN v
  ELSE IF kind = "vector" THEN Covariant(J, v)
  ELSE LET c == IF dim = 3 THEN Contravariant(J, v) ELSE Turned(Covariant(J, v))
       IN IF kind = "curl" THEN c ELSE <<Length(c)>>
\* ---- an element: which entries of state and coordinates it uses (with signs),
\* and the basis at the output nodes of the reference element
Sign(i, x) == IF i[2] = 1 THEN x ELSE Minus(x)
El(o, e) == [k \in 1..Len(o.els[e].s) |-> Sign(o.els[e].s[k], o.state[o.els[e].s[k][1]])]
Jac(o, e, md) == [i \in 1..o.dim |-> [j \in 1..o.dim |-> Total(LAMBDA k : Times(o.coords[o.els[e].c[k][i]], md[k][j]), Len(md))]]
Ref(s, b) == [j \in 1..Len(b[1]) |-> Total(LAMBDA k : Times(s[k], b[k][j]), Len(s))]
Field(o, e, n) == Value(o.kind, o.dim, Jac(o, e, o.els[e].md[n]), Ref(El(o, e), o.els[e].b[n]))
Init == op = None
=============================================================================
