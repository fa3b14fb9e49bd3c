------------------------------ MODULE FacadeMC ------------------------------
EXTENDS Facade, TLC
VARIABLES last, \* the output the last step was about, and whether it failed
          n     \* steps
Names == {"A", "B"}
Ins == { <<>>, [x |-> <<"num", 2>>], [v |-> <<"vec", "p">>], [x |-> <<"num", 3>>, state |-> <<"vec", "q">>], [v |-> <<"num", 1>>] }
MInit == Init /\ last = <<"", "">> /\ n = 0
Step(o, e) == n < 4 /\ last' = <<o, e>> /\ n' = n + 1
Errs == {"", "error", "kind"}
MCreate == \E o \in Names, e \in Errs, kind \in {"one", "bogus"}, deep \in BOOLEAN, req \in {"", "x", "v"} : Create(o, kind, 1, 1, deep, req, e) /\ Step(o, e)
MOptions == \E o \in Names, e \in Errs : Options(o, 2, e) /\ Step(o, e)
MCalcUnknown == \E o \in Names, e \in Errs : ~Known(o) /\ Unknown(o, e) /\ Step(o, e)
MTouch == \E v \in {<<1, 2>>} : Touch("p", v) /\ Step("", "")
MResidual == \E e \in Errs, in \in Ins : RGive(in, e) /\ Step("", e)
MLinearize == \E e \in Errs, in \in Ins : Linearize(in, e) /\ Step("", e)
MUnsteady == \E u \in BOOLEAN : Unsteady(u) /\ Step("", "")
MCalcKnown == \E o \in Names, e \in Errs, in \in Ins : Known(o) /\ Inputs(o, in, e) /\ Step(o, e)
MNext == MCreate \/ MOptions \/ MCalcKnown \/ MCalcUnknown \/ MTouch \/ MResidual \/ MLinearize \/ MUnsteady
MSpec == MInit /\ [][MNext]_<<vars, last, n>>
\* an output is changed only by a step about it, and is never lost
Others == [][\A p \in DOMAIN outs : p \in DOMAIN outs' /\ (p # last'[1] => outs'[p] = outs[p])]_<<vars, last, n>>
\* what one output holds changes its own value only through its fields
Sizes == [][\A p \in DOMAIN outs : outs'[p].n = outs[p].n /\ outs'[p].deep = outs[p].deep]_<<vars, last, n>>
\* an error about an output that is not there changes nothing
Harmless == [][last'[2] = "error" /\ last'[1] # "" /\ last'[1] \notin DOMAIN outs => UNCHANGED vars]_<<vars, last, n>>
\* a field kept by value does not follow the caller's vector
Values == [][\A p \in DOMAIN outs : last'[1] = "" /\ outs[p].deep => Value(outs'[p]) = Value(outs[p])]_<<vars, last, n>>
\* only linearising moves the linearisation point
LinPoint == [][mode.unsteady => res'.lin = res.lin]_<<vars, last, n>>
\* the derivatives are those of the value: One is affine in each field
Affine == \A p \in DOMAIN outs : LET o == outs[p] IN
  \A d \in {1, 2} : One([o EXCEPT !.f.x = @ + d]) - One(o) = Along(o, "x", <<d>>)
                    /\ One([o EXCEPT !.f.v = <<"val", Plus(Held(o.f.v, 0), <<d, 3>>)>>]) - One(o) = Along(o, "v", <<d, 3>>)
                    /\ One([o EXCEPT !.f.s = <<"val", Plus(Held(o.f.s, 0), <<d, 3>>)>>]) - One(o) = Along(o, "state", <<d, 3>>)
                    /\ Along(o, "v", <<d, 3>>) = Gradient(o, "v")[1] * d + Gradient(o, "v")[2] * 3
\* the residual is quadratic in the state: central differences are exact
RDeriv == LET L == res.lin
              R(sv) == At([x |-> L.x, v |-> <<"val", L.v>>, s |-> <<"val", sv>>], 0)
          IN \A d \in { <<1, 2>>, <<3, 0>> } :
               [i \in 1..NS |-> R(Plus(L.s, d))[i] - R([j \in 1..NS |-> L.s[j] - d[j]])[i]] = Scale(2, RAlong("state", d))
               /\ RAlong("state", d)[1] * 5 + RAlong("state", d)[2] * 7 = RAgainst("state", <<5, 7>>)[1] * d[1] + RAgainst("state", <<5, 7>>)[2] * d[2]
=============================================================================
