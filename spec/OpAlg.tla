-------------------------------- MODULE OpAlg --------------------------------
(***************************************************************************)
(* Linear maps built from others: matrices, weighted sums of two maps, and *)
(* matrix-free Jacobians (scaling * dR/du at a base state + explicit part) *)
(* An object is what it was last defined as; applying it changes nothing.  *)
(***************************************************************************)
EXTENDS ResModel
VARIABLE objs   \* id -> object
vars == <<objs>>
None == <<>>
Init == objs = <<>>
Put(id, o) == objs' = [i \in DOMAIN objs \cup {id} |-> IF i = id THEN o ELSE objs[i]]

H(id) == objs[id].h
W(id) == objs[id].w
RECURSIVE Apply(_, _)
Apply(id, x) ==
  LET o == objs[id] IN
  CASE o.kind = "mat" -> MatVec(o.M, x)
    [] o.kind = "sum" -> IF o.i = None THEN VConst(o.h, N0)
                         ELSE VAxpy(o.a, Apply(o.i[1], x), VScale(o.b, Apply(o.j[1], x)))
    [] o.kind = "jf"  -> LET free == VScale(o.scale, RJac(o.P, o.u, x)) IN
                         IF o.E = None THEN free ELSE VAdd(free, MatVec(o.E[1], x))

\* documented forward difference step
Step(x) == LET q == VDot(x, x) IN IF DLt(DDec("1e-6"), q) THEN DSqrt(DDiv(DDec("1e-10"), q)) ELSE DDec("1e-7")
FDErr(o, x) ==
  LET e == Step(x)  m == VNormInf(o.u)  z == DMul(e, VNormInf(x)) IN
  DMul(DAbs(o.scale),
    DAdd(DMul(DInt(3), DMul(DMul(DAbs(o.P.c), DAdd(DMul(DInt(3), m), z)), DMul(z, VNormInf(x)))),
         DDiv(DMul(DDec("4e-15"), DAdd(DAdd(RMag(o.P, o.u, N1, N0), JMag(o.P, o.u, VScale(e, x))), m)), e)))
RECURSIVE Tol(_, _)
Tol(id, x) ==
  LET o == objs[id] IN
  CASE o.kind = "mat" -> DMul(DDec("1e-14"), DMul(Big(o.M), VNormInf(x)))
    [] o.kind = "sum" -> IF o.i = None THEN N0
         ELSE DAdd(DAdd(DMul(DAbs(o.a), Tol(o.i[1], x)), DMul(DAbs(o.b), Tol(o.j[1], x))),
                   DMul(DDec("1e-15"), DAdd(DMul(DAdd(DAbs(o.a), N1), VNormInf(Apply(o.i[1], x))),
                                            DMul(DAdd(DAbs(o.b), N1), VNormInf(Apply(o.j[1], x))))))
    [] o.kind = "jf"  -> DAdd(FDErr(o, x),
         DMul(DDec("1e-14"), DAdd(IF o.E = None THEN N0 ELSE DMul(Big(o.E[1]), VNormInf(x)),
                                  DMul(DAdd(DAbs(o.scale), DDec("0.1")), JMag(o.P, o.u, x)))))

Reset == objs' = <<>>
Mat(id, M) == Put(id, [kind |-> "mat", h |-> Len(M), w |-> Len(M[1]), M |-> M])
Sum0(id, h, w) == Put(id, [kind |-> "sum", h |-> h, w |-> w, a |-> N0, b |-> N0, i |-> None, j |-> None])
SumOf(a, i, b, j) == [kind |-> "sum", h |-> H(i), w |-> W(i), a |-> a, b |-> b, i |-> <<i>>, j |-> <<j>>]
Fits(i, j) == H(i) = H(j) /\ W(i) = W(j)
\* construct, or define again; sizes that do not fit are an error and change nothing
NewSum(id, a, i, b, j, err) ==
  IF Fits(i, j) THEN err = "" /\ Put(id, SumOf(a, i, b, j)) ELSE err = "MISOException" /\ UNCHANGED objs
Add(id, a, i, b, j, err) ==
  /\ objs[id].kind = "sum"
  /\ IF Fits(i, j) THEN err = "" /\ Put(id, SumOf(a, i, b, j)) ELSE err = "MISOException" /\ UNCHANGED objs
Mult(id, x, y, h, w) ==
  /\ h = H(id) /\ w = W(id)
  /\ Len(y) = H(id)
  /\ VClose(y, Apply(id, x), N0, Tol(id, x))
  /\ UNCHANGED objs

\* E: explicit matrix; D: which diagonal blocks of E are stored
\* off: block offsets (1-based starts, last is n+1); bk: kind of the blocks
NewJF(id, P, off, E, stored, ek, bk) ==
  Put(id, [kind |-> "jf", h |-> Len(P.b), w |-> Len(P.b), P |-> P, off |-> off, E |-> E,
           stored |-> stored, ek |-> ek, bk |-> bk, scale |-> N1, u |-> VConst(Len(P.b), N0)])
Scaling(id, s) == objs[id].kind = "jf" /\ objs' = [objs EXCEPT ![id].scale = s]
State(id, u) == objs[id].kind = "jf" /\ objs' = [objs EXCEPT ![id].u = u]
\* diagonal block k, as a matrix
BlockOf(o, k) ==
  LET n == o.off[k + 1] - o.off[k]
      J(i, j) == DAdd(o.P.A[i][j], IF i = j THEN DMul(DInt(3), DMul(o.P.c, DMul(o.u[i], o.u[i]))) ELSE N0)
      Ent(i, j) == LET s == DMul(o.scale, J(i, j)) IN
                   IF o.E = None \/ ~o.stored[k] THEN s ELSE DAdd(s, o.E[1][i][j])
  IN [i \in 1..n |-> [j \in 1..n |-> Ent(o.off[k] + i - 1, o.off[k] + j - 1)]]
BlockErr(o, k) ==
  IF o.bk = "none" THEN TRUE
  ELSE o.E # None /\ (o.ek = "plain" \/ (o.stored[k] /\ o.ek # o.bk))
Block(id, k, M, err) ==
  LET o == objs[id] IN
  /\ o.kind = "jf"
  /\ IF BlockErr(o, k) THEN err = "MISOException"
     ELSE /\ err = ""
          /\ LET B == BlockOf(o, k) IN
             /\ Len(M) = Len(B)
             /\ \A r \in 1..Len(B) : VClose(M[r], B[r], DDec("1e-13"), DDec("1e-14"))
  /\ UNCHANGED objs
=============================================================================
