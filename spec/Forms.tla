------------------------------- MODULE Forms -------------------------------
(* A form (nonlinear form, linear form or functional) as the rest of MISO    *)
(* sees it: a function of named inputs, which keep the value they were last  *)
(* given, whatever order or grouping they were given in.                      *)
(*   val   which value each input has (0: never given)                        *)
(*   lin   which values the form was last linearised about                    *)
(* Its value is the function at val; its products with derivatives are the   *)
(* derivatives of that function at val, except the ones with respect to the  *)
(* state of a residual, which are at lin.                                     *)
EXTENDS IEEE, Naturals, Sequences, TLC
VARIABLES form, val, lin
fvars == <<form, val, lin>>
None == [n \in {} |-> 0]

Init == form = [kind |-> "none"] /\ val = None /\ lin = None
Form(f) ==
  /\ form' = f /\ lin' = None
  /\ val' = [n \in {f.fields[i] : i \in 1..Len(f.fields)} \cup {f.scalars[i] : i \in 1..Len(f.scalars)} |-> 0]
Give(ch) == DOMAIN ch \subseteq DOMAIN val /\ val' = ch @@ val
\* inputs it does not know are ignored
Set(ch) == Give(ch) /\ UNCHANGED <<form, lin>>
\* a functional takes inputs along with the call; a residual and a load do not
Value(ch) == (form.kind # "functional" => DOMAIN ch = {}) /\ Give(ch) /\ UNCHANGED <<form, lin>>
Lin(ch) == form.kind = "residual" /\ Give(ch) /\ lin' = val' /\ UNCHANGED form
Where(wrt) == IF form.kind = "residual" /\ wrt = "state" THEN lin ELSE val'
Deriv(wrt, ch) == wrt \in DOMAIN val /\ Give(ch) /\ (form.kind = "residual" /\ wrt = "state" => lin # None) /\ UNCHANGED <<form, lin>>
Adjoint == form.kind = "residual" /\ lin # None /\ UNCHANGED fvars
\* a product before any linearisation, or a point without a state, is an error
Missing(err) == err = "MISOException" /\ UNCHANGED fvars
Reset == form' = [kind |-> "none"] /\ val' = None /\ lin' = None

\* ---- numbers
Ess(i) == \E k \in 1..Len(form.ess) : form.ess[k] = i
Scale(v) == DAdd(DMul(DDec("1e-10"), VNorm(v)), DDec("1e-13"))
Near(a, b, s) == DLe(DAbs(DSub(a, b)), s)
\* residual: the function off the essential rows, the distance to the boundary
\* value on them; load: added to what is there; functional: one number
IsValue(pre, got, fresh, state, bc) ==
  /\ Len(got) = form.n /\ Len(fresh) = form.n
  /\ \A i \in 1..form.n :
       IF form.kind = "residual" /\ Ess(i) /\ form.bc THEN DEq(got[i], DSub(state[i], bc[i]))
       ELSE IF form.kind = "load" /\ Ess(i) THEN DEq(got[i], pre[i])
       ELSE Near(got[i], DAdd(pre[i], fresh[i]), Scale(fresh))
\* central differences of second and fourth order; q = values at +h -h +2h -2h
D2(q, h) == DDiv(DSub(q[1], q[2]), DMul(DInt(2), h))
D4(q, h) == DDiv(DSub(DMul(DInt(8), DSub(q[1], q[2])), DSub(q[3], q[4])), DMul(DInt(12), h))
Abs4(q, h) == DDiv(DAdd(DAdd(DAbs(q[1]), DAbs(q[2])), DAdd(DAbs(q[3]), DAbs(q[4]))), h)
\* a number is the derivative along h: up to the rounding and the truncation of the differences
IsSlope(g, q, h) ==
  Near(g, D4(q, h), DAdd(DAdd(DMul(DDec("1e-7"), DAdd(DAbs(g), DAbs(D4(q, h)))), DMul(DRat(1, 10), DAbs(DSub(D4(q, h), D2(q, h))))),
                         DAdd(DMul(DDec("1e-11"), Abs4(q, h)), DDec("1e-11"))))
\* what a product added to `pre', contracted with a, is the derivative of y . F
IsDeriv(a, pre, post, y, F, h) ==
  /\ Len(pre) = Len(post)
  /\ IsSlope(VDot(a, VSub(post, pre)), [k \in 1..4 |-> VDot(y, F[k])], h)
\* the adjoint solves the transposed linearised equations: psi . (J d) = sb . d for every d
IsAdjoint(sb, psi, d, F, h) ==
  LET g == VDot(sb, d)  q == [k \in 1..4 |-> VDot(psi, F[k])] IN
  Near(g, D4(q, h), DAdd(DAdd(DMul(DDec("1e-7"), DAdd(VNorm(sb), VNorm(psi))), DMul(DRat(1, 10), DAbs(DSub(D4(q, h), D2(q, h))))),
                         DMul(DDec("1e-11"), Abs4(q, h))))
=============================================================================
