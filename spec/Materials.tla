----------------------------- MODULE Materials -----------------------------
\* The material library, the materials each solver works with, and the
\* coefficients built from them.
\*   lib    the library: material name -> data (an encoded JSON object)
\*   mats   solver -> its own materials
\*   comps  solver -> its components, in the order in which they are read
\*   coeff  coefficient -> [solver, attribute -> rule]
\*   wgt    coefficient -> the value of the input that weights its mixtures
EXTENDS JsonPatch
CONSTANTS Mixed(_, _, _, _),  \* rule, two values, weight -> value
          Near(_, _), Zero, Half
VARIABLES lib, mats, comps, coeff, wgt
vars == <<lib, mats, comps, coeff, wgt>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rules == {"Hashin-Shtrikman", "dHashin-Shtrikman", "average", "daverage"}

NameOf(c) == IF IsStr(c.o["material"]) THEN c.o["material"].s ELSE c.o["material"].o["name"].s
\* every component that carries data overrides the material it names
RECURSIVE Merge(_, _)
Merge(m, cs) ==
  IF cs = <<>> THEN m
  ELSE LET c == Head(cs)  p == c.o["material"]
           one == IF IsStr(p) THEN m ELSE Patch(m, [o |-> [k \in {NameOf(c)} |-> p]])
       IN Merge(one, Tail(cs))

\* the attributes a component covers, in order
Attrs(c) == IF Has(c, "attr") THEN <<c.o["attr"]>> ELSE c.o["attrs"].a
AllAttrs(cs) == {<<i, k>> \in (1..Len(cs)) \X (1..40) : k <= Len(Attrs(cs[i]))}
RuleOf(m, name, prop) ==
  LET d == m.o[name].o[prop] IN
  IF IsNum(d) THEN <<"const", d.n>>
  ELSE LET x == d.o["materials"].a IN
       <<d.o["weight"].s, m.o[x[1].s].o[prop].n, m.o[x[2].s].o[prop].n, d.o["weighted_by"].s>>
\* components with the property, one entry per attribute
Entries(m, cs, prop) == {e \in AllAttrs(cs) : Has(m.o[NameOf(cs[e[1]])], prop)}
At(cs, e) == Attrs(cs[e[1]])[e[2]]
Clash(m, cs, prop) == \E e, f \in Entries(m, cs, prop) : e # f /\ At(cs, e) = At(cs, f)
\* a mixture needs the property of both its parts
Defined(m, cs, prop) == \A e \in Entries(m, cs, prop) :
  LET d == m.o[NameOf(cs[e[1]])].o[prop] IN
  IF IsNum(d) THEN TRUE ELSE \A i \in 1..2 : LET x == d.o["materials"].a[i].s IN x \in DOMAIN m.o /\ Has(m.o[x], prop) /\ IsNum(m.o[x].o[prop])
Build(m, cs, prop) ==
  [a \in {At(cs, e) : e \in Entries(m, cs, prop)} |->
     RuleOf(m, NameOf(cs[(CHOOSE e \in Entries(m, cs, prop) : At(cs, e) = a)[1]]), prop)]
Value(r, w) == IF r[1] = "const" THEN r[2] ELSE Mixed(r[1], r[2], r[3], w)

\* what every entry of the library is consistent with
WellFormed(m) ==
  \A name \in DOMAIN m.o : \A p \in DOMAIN m.o[name].o :
    LET d == m.o[name].o[p] IN
    IF ~Has(d, "materials") THEN TRUE ELSE
      /\ d.o["weight"].s \in Rules
      /\ Len(d.o["materials"].a) = 2
      /\ \A i \in 1..2 : LET x == d.o["materials"].a[i].s IN
           x \in DOMAIN m.o /\ Has(m.o[x], p) /\ IsNum(m.o[x].o[p])

Init == /\ lib = [o |-> [k \in {} |-> Null]]
        /\ mats = [k \in {} |-> Null] /\ comps = mats /\ coeff = mats /\ wgt = mats
Library(m) == /\ WellFormed(m) /\ lib' = m
              /\ mats' = [k \in {} |-> Null] /\ comps' = mats' /\ coeff' = mats' /\ wgt' = mats'
Solver(id, cs, seen) ==
  /\ Same(seen, Merge(lib, cs))
  /\ mats' = Upd(mats, id, Merge(lib, cs)) /\ comps' = Upd(comps, id, cs)
  /\ UNCHANGED <<lib, coeff, wgt>>
\* nothing that happens to a solver changes the library or another solver
Look(id, seenLib, seen) ==
  /\ Same(seenLib, lib) /\ Same(seen, mats[id]) /\ UNCHANGED vars
Coeff(c, id, prop, ok) ==
  /\ Defined(mats[id], comps[id], prop) = TRUE
  /\ ok = ~Clash(mats[id], comps[id], prop)
  /\ IF ok THEN coeff' = Upd(coeff, c, Build(mats[id], comps[id], prop)) /\ wgt' = Upd(wgt, c, Half)
     ELSE coeff' = coeff /\ wgt' = wgt
  /\ UNCHANGED <<lib, mats, comps>>
\* an input reaches the mixtures weighted by its name
Input(c, name, w) ==
  /\ wgt' = IF name = "fill_factor" THEN Upd(wgt, c, w) ELSE wgt
  /\ UNCHANGED <<lib, mats, comps, coeff>>
Eval(c, attr, v) ==
  /\ Near(v, IF attr \in DOMAIN coeff[c] THEN Value(coeff[c][attr], wgt[c]) ELSE Zero)
  /\ UNCHANGED vars
=============================================================================
