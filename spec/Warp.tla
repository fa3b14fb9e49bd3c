------------------------------- MODULE Warp -------------------------------
(***************************************************************************)
(* Moving the nodes of a volume mesh with its surface.  The volume is a    *)
(* linear elastic solid (both Lame parameters 1) whose rest shape are the  *)
(* mesh coordinates; the state are the coordinates it is deformed to.      *)
(*   rows of the surface: state - surface coordinates (nothing, when none  *)
(*                        are given)                                       *)
(*   rows inside:         K (state - mesh coordinates)                     *)
(* A solve keeps the surface of its guess and makes the rows inside zero.  *)
(* Derivatives are those of the rows at the mesh coordinates of the last   *)
(* linearization (a solve linearizes too); the adjoint of a functional of  *)
(* the state solves the transposed system.  Stated over any field.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Plus(_, _), Times(_, _), Minus(_), Recip(_), Num(_), Keep(_), VPlus(_, _), VTimes(_, _), Dot(_, _)
VARIABLE op
None == [kind |-> "none"]
\* X mesh coordinates, S the sequence of surface indices, els the elements:
\* n[c][k] the index of component c of node k, g[q][j] the j-th reference
\* derivatives of the nodes' functions at quadrature point q, w[q] its weight;
\* inc[i] the places of the elements that have a share in row i
RECURSIVE Places(_, _, _)
Places(els, i, e) == IF e = 0 THEN <<>> ELSE Places(els, i, e - 1) \o
   (IF \E c \in 1..Len(els[e].n) : \E k \in 1..Len(els[e].n[1]) : els[e].n[c][k] = i
    THEN LET c == CHOOSE c \in 1..Len(els[e].n) : \E k \in 1..Len(els[e].n[1]) : els[e].n[c][k] = i
         IN <<<<e, c, CHOOSE k \in 1..Len(els[e].n[1]) : els[e].n[c][k] = i>>>> ELSE <<>>)
Build(dim, els, X, S) == op' = [kind |-> "warper", dim |-> dim, els |-> els, X |-> X, S |-> S, at |-> <<>>,
                                inc |-> Keep([i \in 1..Len(X) |-> Places(els, i, Len(els))])]
Has == op.kind # "none"
Linearized == Has /\ op.at # <<>>
Moved(o, in) == IF "mesh_coords" \in DOMAIN in THEN [o EXCEPT !.X = in["mesh_coords"]] ELSE o
Call(in) == Has /\ op' = Moved(op, in)
Linearize(in) == Has /\ op' = LET o == Moved(op, in) IN [o EXCEPT !.at = o.X]
RECURSIVE Total(_, _)
Total(f(_), n) == IF n = 0 THEN Num(0) ELSE Plus(Total(f, n - 1), f(n))
\* ---- one quadrature point of one element
Det(J) == IF Len(J) = 2 THEN Plus(Times(J[1][1], J[2][2]), Minus(Times(J[1][2], J[2][1])))
          ELSE LET Minor(a, b) == Plus(Times(J[2][a], J[3][b]), Minus(Times(J[2][b], J[3][a])))
               IN Plus(Plus(Times(J[1][1], Minor(2, 3)), Minus(Times(J[1][2], Minor(1, 3)))), Times(J[1][3], Minor(1, 2)))
Nx(i) == (i % 3) + 1
Cof(J) == IF Len(J) = 2 THEN <<<<J[2][2], Minus(J[2][1])>>, <<Minus(J[1][2]), J[1][1]>>>>
          ELSE [i \in 1..3 |-> [j \in 1..3 |-> Plus(Times(J[Nx(i)][Nx(j)], J[Nx(Nx(i))][Nx(Nx(j))]),
                                                    Minus(Times(J[Nx(i)][Nx(Nx(j))], J[Nx(Nx(i))][Nx(j)])))]]
RECURSIVE VTotal(_, _)
VTotal(f(_), n) == IF n = 1 THEN f(1) ELSE VPlus(VTotal(f, n - 1), f(n))
At(v, n) == [c \in 1..Len(n) |-> [k \in 1..Len(n[c]) |-> v[n[c][k]]]]
\* forces on the nodes, per component
Point(g, w, x, d) ==
  LET n == Len(x)
      J == Keep([i \in 1..n |-> [j \in 1..n |-> Dot(x[i], g[j])]])
      C == Keep(Cof(J))
      G == Keep([i \in 1..n |-> VTotal(LAMBDA j : VTimes(C[i][j], g[j]), n)])          \* gradients times the determinant
      H == Keep([c \in 1..n |-> [j \in 1..n |-> Dot(d[c], G[j])]])
      s == Keep(Times(w, Recip(Det(J))))
      div == Keep(Total(LAMBDA c : H[c][c], n))
  IN [c \in 1..n |-> VTimes(s, VPlus(VTimes(div, G[c]), VTotal(LAMBDA j : VTimes(Plus(H[c][j], H[j][c]), G[j]), n)))]
RECURSIVE Points(_, _, _, _)
Points(el, x, d, q) == IF q = 1 THEN Keep(Point(el.g[1], el.w[1], x, d))
   ELSE LET a == Points(el, x, d, q - 1)  b == Keep(Point(el.g[q], el.w[q], x, d)) IN Keep([c \in 1..Len(x) |-> VPlus(a[c], b[c])])
\* ---- K(X) d: every row gathers its shares
Stiff(o, X, d) == LET f == Keep([e \in 1..Len(o.els) |-> Points(o.els[e], Keep(At(X, o.els[e].n)), Keep(At(d, o.els[e].n)), Len(o.els[e].w))])
                  IN [i \in 1..Len(d) |-> Total(LAMBDA m : f[o.inc[i][m][1]][o.inc[i][m][2]][o.inc[i][m][3]], Len(o.inc[i]))]
\* ---- the rows
Surface(o) == {o.S[i] : i \in 1..Len(o.S)}
Where(o, i) == CHOOSE k \in 1..Len(o.S) : o.S[k] = i
Diff(a, b) == [i \in 1..Len(a) |-> Plus(a[i], Minus(b[i]))]
Rows(o, x, surf, K) == [i \in 1..Len(x) |-> IF i \notin Surface(o) THEN K[i]
                                            ELSE IF surf = <<>> THEN Num(0) ELSE Plus(x[i], Minus(surf[Where(o, i)]))]
\* derivative along d, and its transpose
Forward(o, d, K) == [i \in 1..Len(d) |-> IF i \in Surface(o) THEN d[i] ELSE K[i]]
Inside(o, p) == [i \in 1..Len(p) |-> IF i \in Surface(o) THEN Num(0) ELSE p[i]]
Backward(o, p, K) == [i \in 1..Len(p) |-> IF i \in Surface(o) THEN Plus(K[i], p[i]) ELSE K[i]]   \* K of Inside(p)
Init == op = None
=============================================================================
