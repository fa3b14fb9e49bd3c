------------------------------ MODULE Options ------------------------------
\* The options a solver runs with, and the solvers built from options.
\*   dflt   the defaults (an encoded JSON object)
\*   opts   solver -> its options
EXTENDS JsonPatch
CONSTANT Dec(_)      \* a decimal literal as a number
VARIABLES dflt, opts
vars == <<dflt, opts>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Val(o, k, d) == IF Has(o, k) THEN o.o[k] ELSE d
Num(o, k, d) == IF Has(o, k) THEN o.o[k].n ELSE Dec(d)
Str(o, k) == o.o[k].s
True == [b |-> TRUE]
False == [b |-> FALSE]

LinTypes == {"hypregmres", "gmres", "hyprefgmres", "fgmres", "hyprepcg", "pcg", "minres"}
Restarted == {"hypregmres", "gmres", "hyprefgmres", "fgmres"}
NonlinTypes == {"newton", "inexactnewton", "relaxednewton"}
OdeTypes == {"RK1", "RK4", "MIDPOINT", "RRK", "RRKMIDPOINT", "RRK6", "PTC", "steady"}

\* a linear solver, as its options o and its preconditioner describe it
\*   r = [kind, rel, abs, maxit, kdim, print, prec]
LinOk(o, prec, r) ==
  IF Str(o, "type") \notin LinTypes THEN r.kind = "error"
  ELSE /\ r.kind = Str(o, "type")
       /\ r.rel = Num(o, "reltol", "0") /\ r.abs = Num(o, "abstol", "0")
       /\ r.maxit = o.o["maxiter"].n
       /\ IF r.kind \in Restarted /\ Has(o, "kdim") THEN o.o["kdim"].n = Dec("-1") \/ r.kdim = o.o["kdim"].n ELSE TRUE
       /\ IF r.kind = "fgmres" THEN TRUE ELSE r.print = o.o["printlevel"].n
       /\ r.prec = prec
SearchType(o) == LET l == Val(o, "linesearch", [s |-> "backtracking"]) IN IF IsStr(l) THEN l.s ELSE Str(l, "type")
NonlinErr(o) == IF Str(o, "type") \notin NonlinTypes THEN TRUE
                ELSE Str(o, "type") = "relaxednewton" /\ SearchType(o) # "backtracking"
\*   r = [kind, rel, abs, maxit, print, solver, fresh, adapt, probe, ref]
NonlinOk(o, r) ==
  IF Str(o, "type") = "none" THEN r.kind = "none"
  ELSE IF NonlinErr(o) THEN r.kind = "error"
  ELSE /\ r.kind = (IF Str(o, "type") = "relaxednewton" THEN "relaxednewton" ELSE "newton")
       /\ r.rel = o.o["reltol"].n /\ r.abs = o.o["abstol"].n
       /\ r.maxit = o.o["maxiter"].n /\ r.print = o.o["printlevel"].n
       /\ r.solver = TRUE /\ r.fresh = TRUE
       /\ IF Str(o, "type") = "inexactnewton"
          THEN r.adapt = <<Num(o, "inexacttype", "2"), Num(o, "rtol0", "0.5"), Num(o, "rtol_max", "0.9"),
                           Num(o, "alpha", "golden"), Num(o, "gamma", "1")>>
          ELSE r.adapt = <<Dec("0")>>
       \* it visits the states that a solver with these settings visits
       /\ r.probe = r.ref
OdeOk(o, r) == r = (IF Has(o, "ode-solver") \/ Str(o, "type") \notin OdeTypes THEN "error" ELSE "ok")

Init == dflt = Null /\ opts = [k \in {} |-> Null]
Defaults(d) == dflt' = d /\ opts' = [k \in {} |-> Null]
\* printed is what appears on the output
Solver(id, user, seen, printed) ==
  LET o == Patch(dflt, user) IN
  /\ Same(seen, o)
  /\ IF Val(o, "silent", False) = True \/ o.o["print-options"] = False THEN IsNull(printed) ELSE Same(printed, o)
  /\ opts' = Upd(opts, id, o) /\ UNCHANGED dflt
Look(id, seenD, seen) == Same(seenD, dflt) /\ Same(seen, opts[id]) /\ UNCHANGED vars
\* a solver's own linear solver for adjoint problems
Adjoint(id, prec, r) == LinOk(opts[id].o["adj-solver"], prec, r) /\ UNCHANGED vars
Linear(o, prec, r) == LinOk(o, prec, r) /\ UNCHANGED vars
Nonlinear(o, r) == NonlinOk(o, r) /\ UNCHANGED vars
Ode(o, r) == OdeOk(o, r) /\ UNCHANGED vars
=============================================================================
