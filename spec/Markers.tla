------------------------------- MODULE Markers -------------------------------
\* Which attributes a list, a keyword or an options entry selects, and which
\* elements the terms of a form that were restricted to attributes visit.
\*   mesh   what the mesh offers per place ("domain" elements, "boundary"
\*          elements, the faces "bdr" on the outer boundary and "internal" on
\*          inner boundaries, every inner "face"): attributes and dofs of the
\*          elements in order; and the largest domain and boundary attribute
\*   terms  the terms of the form: where they act, and on which attributes
\*   ess    the boundary attributes of the essential condition
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES mesh, form, terms, ess
vars == <<mesh, form, terms, ess>>
All == {0}
None == <<>>
Kinds == {"residual", "load", "functional"}
\* boundary attributes also name internal boundaries
Size(place) == IF place = "domain" THEN mesh.nd ELSE mesh.nb
Valid(list, n) == \A i \in 1..Len(list) : list[i] \in 1..n
Range(s) == {s[i] : i \in 1..Len(s)}
\* an entry is a list of attributes, one of the two keywords, or an error
Keywords == {"all", "none"}
Resolve(entry, n) == IF entry.kind = "list"
                     THEN [ok |-> Valid(entry.list, n), set |-> Range(entry.list)]
                     ELSE [ok |-> entry.kind \in Keywords, set |-> IF entry.kind = "all" THEN 1..n ELSE {}]
Ones(array) == {i \in 1..Len(array) : array[i] = 1}
Binary(array) == \A i \in 1..Len(array) : array[i] \in {0, 1}

Init == mesh = None /\ form = "" /\ terms = <<>> /\ ess = {}
Load(m) == mesh' = m /\ form' = "" /\ terms' = <<>> /\ ess' = {}
\* an array of n entries is marked by an entry
Mark(entry, n, ok, array) ==
  LET r == Resolve(entry, n) IN
  /\ ok = r.ok
  /\ IF ok THEN Len(array) = n /\ Binary(array) /\ Ones(array) = r.set ELSE TRUE
  /\ UNCHANGED vars
Build(k) == mesh # None /\ k \in Kinds /\ form' = k /\ terms' = <<>> /\ ess' = {} /\ UNCHANGED mesh
AddAll(place) == form # "" /\ terms' = Append(terms, [place |-> place, sel |-> All]) /\ UNCHANGED <<mesh, form, ess>>
AddOn(place, list, ok) ==
  /\ form # ""
  /\ ok = Valid(list, Size(place))
  /\ IF ok THEN terms' = Append(terms, [place |-> place, sel |-> Range(list)]) /\ UNCHANGED <<mesh, form, ess>>
     ELSE form' = "" /\ terms' = <<>> /\ ess' = {} /\ UNCHANGED mesh \* the form is given up
\* an options entry selects the attributes anew for the restricted terms
Reselect(list, ok) ==
  /\ form = "functional"
  /\ ok = \A i \in 1..Len(terms) : IF terms[i].sel = All THEN TRUE ELSE Valid(list, Size(terms[i].place))
  /\ IF ok THEN terms' = [i \in 1..Len(terms) |-> IF terms[i].sel = All THEN terms[i] ELSE [terms[i] EXCEPT !.sel = Range(list)]]
               /\ UNCHANGED <<mesh, form, ess>>
     ELSE form' = "" /\ terms' = <<>> /\ ess' = {} /\ UNCHANGED mesh
\* an options entry names the essential boundary
DofsOf(set) == UNION {Range(mesh.bdofs[i]) : i \in {j \in 1..Len(mesh.bdofs) : mesh.battr[j] \in set}}
Essential(entry, ok, dofs) ==
  /\ form \in {"residual", "load"}
  /\ LET r == Resolve(entry, mesh.nb) IN
     /\ ok = r.ok
     /\ IF ok THEN ess' = r.set /\ Range(dofs) = DofsOf(r.set) /\ Len(dofs) = Cardinality(DofsOf(r.set)) /\ UNCHANGED <<mesh, form, terms>>
        ELSE form' = "" /\ terms' = <<>> /\ ess' = {} /\ UNCHANGED mesh
\* the elements a term visits when its form is evaluated
Visited(t) == {i \in 1..Len(mesh[t.place]) : t.sel = All \/ mesh[t.place][i] \in t.sel}
\* rows: the entries the evaluation contributes to; the essential ones are left
Touched == UNION {UNION {Range(mesh.dofs[terms[i].place][e]) : e \in Visited(terms[i])} : i \in 1..Len(terms)}
Count(visits) == LET RECURSIVE C(_)
                     C(i) == IF i = 0 THEN 0 ELSE Len(visits[i]) + C(i - 1)
                 IN C(Len(visits))
Eval(visits, rows, value) ==
  /\ form # "" /\ Len(visits) = Len(terms)
  /\ \A i \in 1..Len(terms) : Range(visits[i]) = Visited(terms[i]) /\ Len(visits[i]) = Cardinality(Visited(terms[i]))
  /\ IF form = "functional" THEN value = Count(visits) ELSE Range(rows) = Touched \ DofsOf(ess)
  /\ UNCHANGED vars
=============================================================================
