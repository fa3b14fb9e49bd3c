---------------------------- MODULE MaterialsMC ----------------------------
\* Every short history over a library of two plain materials and a mixture.
EXTENDS Materials, TLC, FiniteSets
VARIABLES k, vals
mv == <<vars, k, vals>>
IMixed(r, a, b, w) == IF r = "average" THEN w * a + (2 - w) * b ELSE IF r = "daverage" THEN a - b ELSE 100 * a + 10 * b + w
INear(a, b) == a = b
N(x) == [n |-> x]
S(x) == [s |-> x]
O(f) == [o |-> f]
L0 == O([cu |-> O([rho |-> N(4), q |-> O([x |-> N(1)])]), ep |-> O([rho |-> N(1)]),
         wire |-> O([rho |-> O([materials |-> [a |-> <<S("cu"), S("ep")>>], weight |-> S("average"), weighted_by |-> S("fill_factor")])])])
Mts == {S("cu"), S("wire"), O([name |-> S("cu"), rho |-> N(7)]), O([name |-> S("cu"), rho |-> Null]),
        O([name |-> S("cu"), q |-> O([y |-> N(2)])]), O([name |-> S("new"), rho |-> N(9)]), O([name |-> S("ep"), rho |-> N(2)]),
        O([name |-> S("ep"), q |-> O([k2 \in {} |-> Null])])}
Atts == {<<1>>, <<2>>, <<1, 2>>}
Cmp == {O([material |-> m, attrs |-> [a |-> at]]) : m \in Mts, at \in Atts} \cup {O([material |-> m, attr |-> 1]) : m \in Mts}
MCInit == Init /\ k = 0 /\ vals = {}
Tick == k < 4 /\ k' = k + 1
MCLib == Tick /\ k = 0 /\ Library(L0) /\ UNCHANGED vals
MCSolver == Tick /\ k > 0 /\ UNCHANGED vals /\ \E i \in {"A", "B"} :
  /\ i \notin DOMAIN mats
  /\ \E n \in 1..2 : \E cs \in [1..n -> Cmp] :
       (n = 2 => i = "A" /\ Len(Attrs(cs[1])) = 1 /\ Attrs(cs[2]) = <<2>> /\ ~Has(cs[2], "attr")) /\ Solver(i, cs, Merge(lib, cs))
MCCoeff == Tick /\ UNCHANGED vals /\ \E i \in DOMAIN mats : "c" \notin DOMAIN coeff /\ Coeff("c", i, "rho", ~Clash(mats[i], comps[i], "rho"))
MCEval == Tick /\ "c" \in DOMAIN coeff /\ \E a \in 1..3 :
  LET v == IF a \in DOMAIN coeff["c"] THEN Value(coeff["c"][a], wgt["c"]) ELSE 0 IN Eval("c", a, v) /\ vals' = vals \cup {<<a, v>>}
MCNext == MCLib \/ MCSolver \/ MCCoeff \/ MCEval
MCSpec == MCInit /\ [][MCNext]_mv
\* the library never changes, and a solver's materials differ from it only
\* where one of its own components says so
Fixed == k > 0 => lib = L0
Own == \A i \in DOMAIN mats : \A n \in DOMAIN mats[i].o :
  (~ \E j \in 1..Len(comps[i]) : NameOf(comps[i][j]) = n /\ ~IsStr(comps[i][j].o["material"])) => n \in DOMAIN lib.o /\ mats[i].o[n] = lib.o[n]
Patched == \A i \in DOMAIN mats : \A j \in 1..Len(comps[i]) :
  LET p == comps[i][j].o["material"] IN
  (~IsStr(p)) /\ (\A j2 \in (j + 1)..Len(comps[i]) : NameOf(comps[i][j2]) # NameOf(comps[i][j])) =>
    \A key \in DOMAIN p.o : IF IsNull(p.o[key]) THEN key \notin DOMAIN mats[i].o[NameOf(comps[i][j])].o
                            ELSE IsObj(p.o[key]) \/ mats[i].o[NameOf(comps[i][j])].o[key] = p.o[key]
Outside == \A v \in vals : v[1] = 3 => v[2] = 0
Single == \A v, w \in vals : v[1] = w[1] => v[2] = w[2]
=============================================================================
