---------------------------- MODULE MatModelsMC -----------------------------
\* Small universe: parameters are where they come from.
EXTENDS MatModels
VARIABLES cs, seen
MDefault(k) == <<"default", k>>
MConst(k, props) == <<"props", props>>
MParams(k, m) == {"p", "q"}
MParamDefault(p) == <<"default", p>>
OwnOf(i, s) == [p \in s |-> <<"own", i, p>>]
LibOf(i, s) == [p \in s |-> <<"lib", i, p>>]
Comps(i, k) == [attrs : {<<i>>, <<i, i + 2>>}, model : Models(k) \cup Constants(k) \cup {"string", "team13"},
                own : {OwnOf(i, s) : s \in SUBSET {"p", "q"}}, lib : {LibOf(i, s) : s \in {{"p"}, {"p", "q"}}}, props : {i}]
MCInit == kind = "" /\ map = <<>> /\ lambda = 0 /\ cs = <<>> /\ seen = {}
Pick == kind = "" /\ cs = <<>> /\ \E k \in {"sigma", "nu", "kh"} : \E n \in 1..2 :
          \E c1 \in Comps(1, k) : \E c2 \in {c \in Comps(2, k) : DOMAIN c.own # {"p"} /\ DOMAIN c.lib = {"p", "q"} /\ Len(c.attrs) = 2} : \E res \in {"ok", "error"} :
             LET w == IF n = 1 THEN <<c1>> ELSE <<c1, c2>> IN Build(k, w, res) /\ cs' = w /\ UNCHANGED seen
Look == \E a \in 1..5 : Eval(a, LAMBDA m : seen' = seen \cup {<<a, m>>}) /\ UNCHANGED cs
Lam == lambda = 0 /\ cs # <<>> /\ SetLambda(1) /\ UNCHANGED <<cs, seen>>
MCNext == Pick \/ Look \/ Lam
MCSpec == MCInit /\ [][MCNext]_<<mmvars, cs, seen>>
Owner(a) == {i \in 1..Len(cs) : a \in Attrs(cs[i])}
\* every look agrees with the component that owns the attribute, by where the parameters are
Right == \A e \in seen :
   IF Owner(e[1]) = {} THEN e[2] = <<"const", MDefault(kind)>>
   ELSE LET c == cs[CHOOSE i \in Owner(e[1]) : TRUE] IN
        IF c.model \notin Models(kind) THEN e[2] = <<"const", <<"props", c.props>>>>
        ELSE /\ e[2][1] = c.model
             /\ \A p \in {"p", "q"} : e[2][2][p] = IF p \in DOMAIN c.own THEN c.own[p] ELSE IF p \in DOMAIN c.lib THEN c.lib[p] ELSE MParamDefault(p)
\* an attribute looks the same whenever it is looked at
Same == \A e, f \in seen : e[1] = f[1] => e[2] = f[2]
Refused == (cs # <<>> /\ \E i \in 1..Len(cs) : cs[i].model = "team13") => (kind = "" /\ seen = {})
Built == [][kind # "" => UNCHANGED <<kind, map>>]_mmvars
=============================================================================
