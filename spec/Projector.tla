----------------------------- MODULE Projector -----------------------------
\* Splitting a Nedelec field into its irrotational and divergence-free parts.
\*   grad   the discrete gradient G, metric free
\*   inner  the interior H1 degrees of freedom
\*   mesh   the weak divergence W of the mesh as it is now
\*   used   the weak divergence the projector works with (None: not set up)
EXTENDS Naturals, Sequences
CONSTANTS Close(_, _, _), \* two vectors agree, at the scale of a third
          Mul(_, _),      \* matrix, vector
          TMul(_, _),     \* transpose of the matrix, vector
          Add(_, _), Sub(_, _), ZeroV(_)
VARIABLES kind, grad, inner, mesh, used
vars == <<kind, grad, inner, mesh, used>>
None == <<>>
Vanishes(psi, in) == \A i \in 1..Len(psi) : IF i \in in THEN TRUE ELSE ZeroV(<<psi[i]>>)
Pick(v, in) == LET RECURSIVE P(_, _)
                   P(i, s) == IF i > Len(v) THEN s ELSE P(i + 1, IF i \in in THEN Append(s, v[i]) ELSE s)
               IN P(1, <<>>)
\* y is the irrotational part of x: the gradient of a potential that vanishes
\* on the boundary, with the weak divergence of x; psi is the witness
Irrot(W, G, in, x, y, psi) ==
  /\ Vanishes(psi, in)
  /\ Close(y, Mul(G, psi), x)
  /\ Close(Pick(Mul(W, y), in), Pick(Mul(W, x), in), Mul(W, x))
\* z is the transpose of that map applied to p; phi is the witness
IrrotT(W, G, in, p, z, phi) ==
  /\ Vanishes(phi, in)
  /\ Close(Pick(TMul(G, TMul(W, phi)), in), Pick(TMul(G, p), in), TMul(G, p))
  /\ Close(z, TMul(W, phi), p)
Now == IF used = None THEN mesh ELSE used

Init == kind = "" /\ grad = None /\ inner = {} /\ mesh = None /\ used = None
Build(k, G, in, W) == kind' = k /\ grad' = G /\ inner' = in /\ mesh' = W /\ used' = None
\* the mesh moves under the projector
Move(W) == mesh' = W /\ UNCHANGED <<kind, grad, inner, used>>
\* inputs arrive; new mesh coordinates invalidate what was set up
Notify(coords) == used' = (IF coords THEN None ELSE used) /\ UNCHANGED <<kind, grad, inner, mesh>>
Part(x, y) == IF kind = "irrotational" THEN y ELSE Sub(x, y)
Mult(x, y, psi) ==
  /\ Irrot(Now, grad, inner, x, Part(x, y), psi)
  /\ used' = Now /\ UNCHANGED <<kind, grad, inner, mesh>>
\* bar is accumulated into
VjpIn(p, bar, out, phi) ==
  /\ IrrotT(Now, grad, inner, p, Part(p, Sub(out, bar)), phi)
  /\ used' = Now /\ UNCHANGED <<kind, grad, inner, mesh>>
=============================================================================
