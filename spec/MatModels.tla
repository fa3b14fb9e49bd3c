----------------------------- MODULE MatModels ------------------------------
(***************************************************************************)
(* A material coefficient (conductivity, reluctivity, remnant flux, knee   *)
(* flux density, demagnetization constraint, CAL2 hysteresis and eddy      *)
(* coefficients) is built from a list of components, each a set of mesh    *)
(* attributes with a material, and a library of materials.  The component  *)
(* that owns an attribute decides its model; a parameter of the model is   *)
(* the component's own if it has one, else the library's, else (where      *)
(* there is one) the documented default.  Evaluating changes nothing.      *)
(*   kind    what the coefficient is ("" before it is built)               *)
(*   map     attribute -> <<model, parameters>>, as the components are     *)
(*           added one after the other                                     *)
(*   lambda  how much of its nonlinear part every continuation coefficient *)
(*           shows                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Default(_), Const(_, _), Params(_, _), ParamDefault(_)
VARIABLES kind, map, lambda
mmvars == <<kind, map, lambda>>
Kinds == {"sigma", "nu", "br", "bknee", "demag", "kh", "ke"}
\* the models a kind offers besides constants
Models(k) == CASE k = "sigma" -> {"linear"} [] k = "nu" -> {"lognu", "bh"} [] k = "br" -> {"br"}
               [] k \in {"bknee", "demag"} -> {"Demag"} [] k \in {"kh", "ke"} -> {"CAL2"}
Constants(k) == CASE k = "sigma" -> {"constant"} [] k = "nu" -> {"linear"} [] OTHER -> {}
Known(k, c) == c.model \in Models(k) \cup Constants(k) \cup {"string", "none"}
\* a parameter is the component's own, or the library's, or the default
Param(p, own, lib) == IF p \in DOMAIN own THEN own[p] ELSE IF p \in DOMAIN lib THEN lib[p] ELSE ParamDefault(p)
Resolve(k, c) ==
   IF c.model \in Models(k) THEN <<c.model, [p \in Params(k, c.model) |-> Param(p, c.own, c.lib)]>>
   ELSE <<"const", Const(k, c.props)>>
Attrs(c) == {c.attrs[i] : i \in 1..Len(c.attrs)}
RECURSIVE Fill(_, _, _)
Fill(k, cs, m) == IF cs = <<>> THEN m
                  ELSE Fill(k, Tail(cs), m @@ [a \in Attrs(Head(cs)) |-> Resolve(k, Head(cs))])
Build(k, cs, res) ==
   /\ res = IF \A i \in 1..Len(cs) : Known(k, cs[i]) THEN "ok" ELSE "error"
   /\ IF res = "ok" THEN kind' = k /\ map' = Fill(k, cs, <<>>) ELSE kind' = "" /\ map' = <<>>
   /\ UNCHANGED lambda
SetLambda(v) == lambda' = v /\ UNCHANGED <<kind, map>>
\* what the coefficient is on an attribute
At(a) == IF a \in DOMAIN map THEN map[a] ELSE <<"const", Default(kind)>>
Eval(a, Says(_)) == kind # "" /\ Says(At(a)) /\ UNCHANGED mmvars
=============================================================================
