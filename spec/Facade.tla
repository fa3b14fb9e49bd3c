------------------------------- MODULE Facade -------------------------------
(***************************************************************************)
(* AbstractSolver2 as its users see it: named outputs are created, given   *)
(* options, evaluated and differentiated; the residual is evaluated,       *)
(* linearised and differentiated.  Numbers are integers.                   *)
(*                                                                         *)
(* The outputs and the residual are models whose value is known exactly:   *)
(*    output of size n:   out_i = k i x sum(v) + i sum(s)                  *)
(*    residual:           r_i   = x s_i^2 + v_i                            *)
(* where x is a number and v, s ("state") are fields given by name.  A     *)
(* field given stays given until it is given again; a field kept by        *)
(* reference shows what the caller's vector holds now, one kept by value   *)
(* what it held when it was given.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES outs,   \* name |-> output
          res,    \* the residual's fields and linearisation point
          bufs,   \* the caller's vectors
          mode    \* which residual there is: spatial, spacetime, none; unsteady
vars == <<outs, res, bufs, mode>>

NS == 2  \* length of the fields
Unset == <<"unset">>
NoFields == [x |-> 0, v |-> Unset, s |-> Unset]
NoLin == [x |-> 0, v |-> <<0, 0>>, s |-> <<0, 0>>]
Sum(v) == v[1] + v[2]
\* what a field holds; rank r of the communicator holds values shifted by r
Held(f, r) == CASE f[1] = "unset" -> <<0, 0>>
                [] f[1] = "ref" -> [i \in 1..NS |-> bufs[f[2]][i] + r]
                [] f[1] = "val" -> [i \in 1..NS |-> f[2][i] + r]

\* Giving inputs: x, then v, then the state.  A name that is not given keeps
\* what it was; a number for a field or a field for a number is an error, and
\* so is leaving out a field that is required.
Keep(b, deep) == IF deep THEN <<"val", bufs[b]>> ELSE <<"ref", b>>
GiveX(a, in, req) == IF "x" \notin DOMAIN in THEN IF req THEN [a EXCEPT !.err = "error"] ELSE a
                ELSE IF in["x"][1] = "num" THEN [a EXCEPT !.f.x = in["x"][2]] ELSE [a EXCEPT !.err = "kind"]
GiveV(a, in, deep, req) ==
  IF a.err # "" THEN a
  ELSE IF "v" \notin DOMAIN in THEN IF req THEN [a EXCEPT !.err = "error"] ELSE a
  ELSE IF in["v"][1] = "vec" THEN [a EXCEPT !.f.v = Keep(in["v"][2], deep)] ELSE [a EXCEPT !.err = "kind"]
GiveS(a, in, deep) ==
  IF a.err # "" \/ "state" \notin DOMAIN in THEN a
  ELSE IF in["state"][1] = "vec" THEN [a EXCEPT !.f.s = Keep(in["state"][2], deep)] ELSE [a EXCEPT !.err = "kind"]
Give(f, in, deep, req) == GiveS(GiveV(GiveX([f |-> f, err |-> ""], in, req = "x"), in, deep, req = "v"), in, deep)

Scale(i, a) == [j \in DOMAIN a |-> i * a[j]]
Plus(a, b) == [j \in DOMAIN a |-> a[j] + b[j]]

\* an output's value and derivatives, at the fields it holds
One(o) == o.k * o.f.x * Sum(Held(o.f.v, 0)) + Sum(Held(o.f.s, 0))
Value(o) == [i \in 1..o.n |-> i * One(o)]
\* the derivative of One along d
Along(o, wrt, d) == CASE wrt = "x" -> o.k * Sum(Held(o.f.v, 0)) * d[1]
                      [] wrt = "v" -> o.k * o.f.x * Sum(d)
                      [] wrt = "state" -> Sum(d)
                      [] OTHER -> 0
\* the gradient of One
Gradient(o, wrt) == CASE wrt = "x" -> <<o.k * Sum(Held(o.f.v, 0))>>
                      [] wrt = "v" -> <<o.k * o.f.x, o.k * o.f.x>>
                      [] wrt = "state" -> <<1, 1>>
                      [] OTHER -> <<0, 0>>
Weight(b) == LET RECURSIVE W(_) W(i) == IF i = 0 THEN 0 ELSE W(i - 1) + i * b[i] IN W(Len(b))
Forward(o, wrt, d, acc) == Plus(acc, [i \in 1..o.n |-> i * Along(o, wrt, d)])
Reverse(o, wrt, bar, acc) == Plus(acc, Scale(Weight(bar), Gradient(o, wrt)))

Init == outs = <<>> /\ res = [f |-> NoFields, lin |-> NoLin] /\ bufs \in [{"p", "q"} -> {<<0, 0>>}]
        /\ mode \in [kind: {"spatial"}, unsteady: {FALSE}]

Setup(kind, b) == /\ outs' = <<>> /\ res' = [f |-> NoFields, lin |-> NoLin] /\ bufs' = b
                  /\ mode' = [kind |-> kind, unsteady |-> FALSE]

Known(o) == o \in DOMAIN outs
Add(o, rec) == [p \in DOMAIN outs \cup {o} |-> IF p = o THEN rec ELSE outs[p]]

\* kinds of output: "one" has size 1, "many" size n; the solver knows no "bogus"
Create(o, kind, n, k, deep, req, err) ==
  IF Known(o) \/ kind = "bogus" THEN err = "error" /\ UNCHANGED vars
  ELSE /\ err = ""
       /\ outs' = Add(o, [n |-> n, k |-> k, deep |-> deep, req |-> req, f |-> NoFields])
       /\ UNCHANGED <<res, bufs, mode>>
Unknown(o, err) == ~Known(o) /\ err = "error" /\ UNCHANGED vars

Size(o, n, err) == IF Known(o) THEN err = "" /\ n = outs[o].n /\ UNCHANGED vars ELSE Unknown(o, err)
Options(o, k, err) == IF Known(o) THEN err = "" /\ outs' = [outs EXCEPT ![o].k = k] /\ UNCHANGED <<res, bufs, mode>>
                      ELSE Unknown(o, err)

\* giving an output its inputs
Inputs(o, in, err) == LET a == Give(outs[o].f, in, outs[o].deep, outs[o].req) IN
  outs' = [outs EXCEPT ![o].f = a.f] /\ UNCHANGED <<res, bufs, mode>> /\ err = a.err
Calc(o, in, got, err) == IF Known(o) THEN Inputs(o, in, err) /\ (IF err = "" THEN got = Value(outs'[o]) ELSE TRUE) ELSE Unknown(o, err)
\* a derivative with respect to a number is added to what it is given, one with
\* respect to a field is written (only outputs of size 1 have them)
Partial(o, in, wrt, pre, post, err) ==
  IF Known(o)
  THEN /\ Inputs(o, in, err)
       /\ IF err # "" THEN post = pre
          ELSE post = IF wrt = "x" THEN Plus(pre, Gradient(outs'[o], wrt)) ELSE Gradient(outs'[o], wrt)
  ELSE Unknown(o, err) /\ post = pre
Jvp(o, in, wrt, d, pre, post, err) ==
  IF Known(o) THEN Inputs(o, in, err) /\ post = IF err # "" THEN pre ELSE Forward(outs'[o], wrt, d, pre)
  ELSE Unknown(o, err) /\ post = pre
Vjp(o, in, wrt, bar, pre, post, err) ==
  IF Known(o) THEN Inputs(o, in, err) /\ post = IF err # "" THEN pre ELSE Reverse(outs'[o], wrt, bar, pre)
  ELSE Unknown(o, err) /\ post = pre

\* the caller writes its vector
Touch(b, v) == bufs' = [bufs EXCEPT ![b] = v] /\ UNCHANGED <<outs, res, mode>>

---------------------------------------------------------------------------
\* the residual (its fields are kept by reference, and the state is required)
RGive(in, err) == LET a == Give(res.f, in, FALSE, "") IN
  res' = [res EXCEPT !.f = a.f] /\ UNCHANGED <<outs, bufs, mode>> /\ err = a.err
At(f, r) == [i \in 1..NS |-> f.x * Held(f.s, r)[i] * Held(f.s, r)[i] + Held(f.v, r)[i]]
Residual(in, got, err) == RGive(in, err) /\ (IF err = "" THEN got = At(res'.f, 0) ELSE TRUE)
SumSq(v) == v[1] * v[1] + v[2] * v[2]
\* the square of the residual's norm over all of nr ranks
NormSq(f, nr) == LET RECURSIVE N(_) N(r) == IF r < 0 THEN 0 ELSE N(r - 1) + SumSq(At(f, r)) IN N(nr - 1)
Norm(in, err) == RGive(in, err)

Linearize(in, err) ==
  IF mode.unsteady THEN err = "error" /\ UNCHANGED vars
  ELSE LET a == Give(res.f, in, FALSE, "") IN
       /\ err = a.err /\ UNCHANGED <<outs, bufs, mode>>
       /\ res' = [f |-> a.f, lin |-> IF a.err = "" THEN [x |-> a.f.x, v |-> Held(a.f.v, 0), s |-> Held(a.f.s, 0)] ELSE res.lin]
\* the residual's derivative at the linearisation point
RAlong(wrt, d) == [i \in 1..NS |-> CASE wrt = "x" -> res.lin.s[i] * res.lin.s[i] * d[1]
                                     [] wrt = "state" -> 2 * res.lin.x * res.lin.s[i] * d[i]
                                     [] wrt = "v" -> d[i]
                                     [] OTHER -> 0]
RAgainst(wrt, b) == CASE wrt = "x" -> <<res.lin.s[1] * res.lin.s[1] * b[1] + res.lin.s[2] * res.lin.s[2] * b[2]>>
                      [] wrt = "state" -> [i \in 1..NS |-> 2 * res.lin.x * res.lin.s[i] * b[i]]
                      [] wrt = "v" -> b
                      [] OTHER -> [i \in 1..NS |-> 0]
\* scalar products: of the residual's sum, and with respect to a number
RJvp(wrt, d, scalar, pre, post, err) ==
  /\ UNCHANGED vars
  /\ IF mode.unsteady THEN err = "error" /\ post = pre
     ELSE err = "" /\ post = IF scalar THEN <<Sum(RAlong(wrt, d))>> ELSE Plus(pre, RAlong(wrt, d))
RVjp(wrt, b, scalar, pre, post, err) ==
  /\ UNCHANGED vars
  /\ IF mode.unsteady THEN err = "error" /\ post = pre
     ELSE err = "" /\ post = IF scalar THEN RAgainst(wrt, b) ELSE Plus(pre, RAgainst(wrt, b))
\* there is no adjoint of an unsteady problem (the state may have been taken)
Adjoint(b, err) == /\ mode.unsteady /\ err = "error" /\ UNCHANGED <<outs, bufs, mode>>
                   /\ (res' = res \/ res' = [res EXCEPT !.f.s = <<"ref", b>>])
Unsteady(u) == mode' = [mode EXCEPT !.unsteady = u] /\ UNCHANGED <<outs, res, bufs>>
StateSize(n, err) == UNCHANGED vars /\ IF mode.kind = "none" THEN err = "error" ELSE err = "" /\ n = NS
FieldSize(name, n, err) == IF name \in {"state", "residual", "adjoint"} THEN StateSize(n, err)
                           ELSE UNCHANGED vars /\ err = "" /\ n = 0
=============================================================================
