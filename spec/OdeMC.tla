------------------------------- MODULE OdeMC -------------------------------
(* The tableaus themselves: each scheme has the order it is known for, and *)
(* every stage is asked for at the abscissa its row sums to.               *)
EXTENDS Ode
VARIABLE sch
\* full tableau, the implicit coefficient on the diagonal
Full(s, i, j) == LET p == Tab[s] IN IF j < i THEN p.a[i][j] ELSE IF j = i THEN p.g[i] ELSE N0
Z(s) == 1..Len(Tab[s].c)
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN N0 ELSE DAdd(f[n], Sum(f, n - 1))
Tot(s, F(_)) == Sum([i \in Z(s) |-> F(i)], Len(Tab[s].c))
Mv(s, v) == [i \in Z(s) |-> Sum([j \in Z(s) |-> DMul(Full(s, i, j), v[j])], Len(Tab[s].c))]
Had(u, v) == [i \in DOMAIN u |-> DMul(u[i], v[i])]
Bt(s, v) == LET F(i) == DMul(Tab[s].b[i], v[i]) IN Tot(s, F)
One(s) == [i \in Z(s) |-> N1]
Near(u, p, r) == DLe(DAbs(DSub(u, DRat(p, r))), DDec("1e-10"))
C(s) == Mv(s, One(s))
C2(s) == Had(C(s), C(s))
RowSums == sch # "none" => \A i \in Z(sch) : DLe(DAbs(DSub(C(sch)[i], Tab[sch].c[i])), DDec("1e-13"))
\* rooted trees up to order 4 in full, and the quadrature conditions up to 6
Conditions(s, p) ==
  /\ Near(Bt(s, One(s)), 1, 1)
  /\ p >= 2 => Near(Bt(s, C(s)), 1, 2)
  /\ p >= 3 => Near(Bt(s, C2(s)), 1, 3) /\ Near(Bt(s, Mv(s, C(s))), 1, 6)
  /\ p >= 4 => /\ Near(Bt(s, Had(C(s), C2(s))), 1, 4) /\ Near(Bt(s, Had(C(s), Mv(s, C(s)))), 1, 8)
               /\ Near(Bt(s, Mv(s, C2(s))), 1, 12) /\ Near(Bt(s, Mv(s, Mv(s, C(s)))), 1, 24)
  /\ p >= 5 => /\ Near(Bt(s, Had(C2(s), C2(s))), 1, 5) /\ Near(Bt(s, Had(C2(s), Mv(s, C(s)))), 1, 10)
               /\ Near(Bt(s, Had(C(s), Mv(s, C2(s)))), 1, 15) /\ Near(Bt(s, Mv(s, Mv(s, Mv(s, C(s))))), 1, 120)
               /\ Near(Bt(s, Had(Mv(s, C(s)), Mv(s, C(s)))), 1, 20)
  /\ p >= 6 => /\ Near(Bt(s, Had(C(s), Had(C2(s), C2(s)))), 1, 6)
               /\ Near(Bt(s, Mv(s, Mv(s, Mv(s, Mv(s, C(s)))))), 1, 720)
HasOrder == sch \in DOMAIN Order => Conditions(sch, Order[sch])
MCInit == Init /\ sch = "none"
\* a scalar problem x' = -x: the explicit schemes reproduce exp(-dt) to their order
Exact(s, h) ==
  LET RECURSIVE K(_, _)
      \* slopes for k_i = -(1 + h sum a_ij k_j) / (1 + g_i h)
      K(i, k) == IF i > Len(Tab[s].c) THEN k
                 ELSE LET y == DAdd(N1, DMul(h, Sum([j \in 1..(i-1) |-> DMul(Tab[s].a[i][j], k[j])], i - 1))) IN
                      K(i + 1, Append(k, DDiv(DNeg(y), DAdd(N1, DMul(Tab[s].g[i], h)))))
      k == K(1, <<>>) IN DAdd(N1, DMul(h, Sum([j \in Z(s) |-> DMul(Tab[s].b[j], k[j])], Len(k))))
Err(s, h) == DAbs(DSub(Exact(s, h), DExp(DNeg(h))))
Accurate == sch \in DOMAIN Order =>
  LET h == DRat(1, 16) IN DLe(Err(sch, h), DAdd(DDec("1e-12"), DPow(h, DInt(Order[sch] + 1))))
MCNext == sch = "none" /\ sch' \in Offered /\ UNCHANGED vars
MCSpec == MCInit /\ [][MCNext]_<<vars, sch>>
=============================================================================
