-------------------------------- MODULE Ode --------------------------------
(***************************************************************************)
(* One-step time integrators as offered by name.  A scheme is a tableau    *)
(*   c[i]      abscissa at which the i-th slope is requested               *)
(*   g[i]      implicit coefficient: the request is for k with             *)
(*             M k + R(y_i + g_i dt k, t + c_i dt) = 0   (g = 0: explicit) *)
(*   a[i][j]   y_i = x + dt sum_j a_ij k_j                                 *)
(*   b[i]      x' = x + dt sum_i b_i k_i                                   *)
(*   relax     the increment and dt are scaled by the relaxation factor    *)
(*   assign    x' is the solution of the only stage itself (steady)        *)
(* Numbers are IEEE doubles.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IEEE
N0 == DInt(0)
N1 == DInt(1)
Half == DRat(1, 2)
A(row) == [j \in DOMAIN row |-> DDec(row[j])]
Verner ==
  [c |-> A(<<"0", ".6e-1", ".9593333333333333333333333333333333333333e-1", ".1439", ".4973", ".9725", ".9995", "1">>),
   g |-> [i \in 1..8 |-> N0],
   a |-> <<<<>>,
     A(<<".6e-1">>),
     A(<<".1923996296296296296296296296296296296296e-1", ".7669337037037037037037037037037037037037e-1">>),
     A(<<".35975e-1", "0", ".107925">>),
     A(<<"1.318683415233148260919747276431735612861", "0", "-5.042058063628562225427761634715637693344", "4.220674648395413964508014358283902080483">>),
     A(<<"-41.87259166432751461803757780644346812905", "0", "159.4325621631374917700365669070346830453", "-122.1192135650100309202516203389242140663", "5.531743066200053768252631238332999150076">>),
     A(<<"-54.43015693531650433250642051294142461271", "0", "207.0672513650184644273657173866509835987", "-158.6108137845899991828742424365058599469", "6.991816585950242321992597280791793907096", "-.1859723106220323397765171799549294623692e-1">>),
     A(<<"-54.66374178728197680241215648050386959351", "0", "207.9528062553893734515824816699834244238", "-159.2889574744995071508959805871426654216", "7.018743740796944434698170760964252490817", "-.1833878590504572306472782005141738268361e-1", "-.5119484997882099077875432497245168395840e-3">>)>>,
   b |-> A(<<".3438957868357036009278820124728322386520e-1", "0", "0", ".2582624555633503404659558098586120858767", ".4209371189673537150642551514069801967032", "4.405396469669310170148836816197095664891", "-176.4831190242986576151740942499002125029", "172.3641334014150730294022582711902413315">>),
   relax |-> TRUE, assign |-> FALSE]
Midpoint(rx) == [c |-> <<Half>>, g |-> <<Half>>, a |-> <<<<>>>>, b |-> <<N1>>, relax |-> rx, assign |-> FALSE]
Tab ==
  [RK1 |-> [c |-> <<N0>>, g |-> <<N0>>, a |-> <<<<>>>>, b |-> <<N1>>, relax |-> FALSE, assign |-> FALSE],
   RK4 |-> [c |-> <<N0, Half, Half, N1>>, g |-> <<N0, N0, N0, N0>>, a |-> <<<<>>, <<Half>>, <<N0, Half>>, <<N0, N0, N1>>>>,
            b |-> <<DRat(1, 6), DRat(1, 3), DRat(1, 3), DRat(1, 6)>>, relax |-> FALSE, assign |-> FALSE],
   MIDPOINT |-> Midpoint(FALSE),
   RRK |-> Midpoint(TRUE),
   RRKMIDPOINT |-> Midpoint(TRUE),
   RRK6 |-> Verner,
   PTC |-> [c |-> <<N1>>, g |-> <<N1>>, a |-> <<<<>>>>, b |-> <<N1>>, relax |-> FALSE, assign |-> FALSE],
   steady |-> [c |-> <<N1>>, g |-> <<N1>>, a |-> <<<<>>>>, b |-> <<N0>>, relax |-> FALSE, assign |-> TRUE]]
Offered == DOMAIN Tab
Order == [RK1 |-> 1, RK4 |-> 4, MIDPOINT |-> 2, RRK |-> 2, RRKMIDPOINT |-> 2, RRK6 |-> 6, PTC |-> 1]

RECURSIVE Comb(_, _, _, _, _)
\* x + s * sum_j w_j k_j
Comb(x, s, w, k, n) == IF n = 0 THEN x ELSE VAxpy(DMul(s, w[n]), k[n], Comb(x, s, w, k, n - 1))
RECURSIVE AbsSum(_, _, _)
AbsSum(w, k, n) == IF n = 0 THEN N0 ELSE DAdd(DMul(DAbs(w[n]), VNormInf(k[n])), AbsSum(w, k, n - 1))
\* y = x + s sum w k, up to the rounding of that sum
IsComb(y, x, s, w, k) ==
  VClose(y, Comb(x, s, w, k, Len(w)), N0,
         DMul(DDec("2e-14"), DAdd(VNormInf(x), DMul(DAbs(s), AbsSum(w, k, Len(w))))))
IsTime(u, t, c, dt) == DLe(DAbs(DSub(u, DAdd(t, DMul(c, dt)))), DMul(DDec("1e-15"), DAdd(DAbs(t), DAbs(dt))))
IsNum(u, v) == DClose(u, v, DDec("1e-15"), N0)

VARIABLES q,    \* scheme, or <<>>
          ph, x, t, dt, ks, ys,
          ds,   \* stage -> entropy change reported there
          near, \* TRUE: the relaxation factor must be close to one
          es    \* entropies evaluated: sequence of <<state, entropy>>
vars == <<q, ph, x, t, dt, ks, ys, ds, near, es>>
Init == q = "none" /\ ph = "idle" /\ x = <<>> /\ t = N0 /\ dt = N0 /\ ks = <<>> /\ ys = <<>> /\ ds = <<>> /\ es = <<>> /\ near = FALSE
T == Tab[q]
S == Len(T.c)

Construct(type, err) ==
  /\ ph = "idle" /\ err = (IF type \in Offered THEN "" ELSE "MISOException")
  /\ q' = (IF err = "" THEN type ELSE "none") /\ UNCHANGED <<ph, x, t, dt, ks, ys, ds, near, es>>
\* nr: a smooth system and a small step, where the factor must be close to one
Begin(x0, t0, h, nr) ==
  /\ ph = "idle" /\ q # "none" /\ ph' = "step" /\ x' = x0 /\ t' = t0 /\ dt' = h
  /\ ks' = <<>> /\ ys' = <<>> /\ ds' = [i \in 1..S |-> <<>>] /\ es' = <<>> /\ near' = nr /\ UNCHANGED q
\* the solver is asked for the next slope: k solves
\*    M k + R(y + h k, time) = 0,   resid is the norm of the left-hand side
Solve(y, h, time, guess, kin, k, resid, tol) ==
  /\ ph = "step" /\ Len(ks) < S
  /\ LET i == Len(ks) + 1 IN
     /\ IsComb(y, x, dt, T.a[i], ks)
     /\ IsNum(h, DMul(T.g[i], dt))
     /\ IsTime(time, t, T.c[i], dt)
     /\ guess = T.assign
     /\ T.assign => VSame(kin, x)
     /\ DLe(resid, tol)
     /\ ks' = Append(ks, k) /\ ys' = Append(ys, y)
  /\ UNCHANGED <<q, ph, x, t, dt, ds, near, es>>
\* entropy change by the slope of one stage, at that stage's own state
StageState(i) == IF T.g[i] = N0 THEN ys[i] ELSE VAxpy(DMul(T.g[i], dt), ks[i], ys[i])
EntropyChange(y, h, time, k, d) ==
  /\ ph = "step" /\ T.relax
  /\ \E i \in 1..Len(ks) :
       /\ VSame(k, ks[i])
       /\ VClose(y, StageState(i), N0, DMul(DDec("2e-14"), DAdd(VNormInf(y), DMul(DAbs(dt), VNormInf(k)))))
       /\ IsTime(time, t, T.c[i], dt)
       /\ IsNum(h, DMul(T.c[i], dt))
       /\ ds' = [ds EXCEPT ![i] = <<d>>]
  /\ UNCHANGED <<q, ph, x, t, dt, ks, ys, near, es>>
Entropy(y, s) ==
  /\ ph = "step" /\ T.relax /\ Len(ks) = S
  /\ es' = Append(es, <<y, s>>) /\ UNCHANGED <<q, ph, x, t, dt, ks, ys, ds, near>>

\* every stage that counts has reported its entropy change
AllReported == \A i \in 1..S : T.b[i] # N0 => ds[i] # <<>>
RECURSIVE Delta(_)
Delta(n) == IF n = 0 THEN N0
            ELSE IF T.b[n] = N0 THEN Delta(n - 1) ELSE DAdd(Delta(n - 1), DMul(T.b[n], ds[n][1]))
Old == {i \in DOMAIN es : VSame(es[i][1], x)}
\* entropy of the new state minus old entropy plus estimated change
Residual(gamma, s) == DAdd(DSub(s, es[CHOOSE i \in Old : TRUE][2]), DMul(DMul(gamma, dt), Delta(S)))
RECURSIVE Largest(_)
Largest(n) == IF n = 0 THEN N0 ELSE DMax(Largest(n - 1), DAbs(es[n][2]))
\* the tolerance of the search plus rounding at the scale of the entropies met
ResTol(gamma, s) ==
  DAdd(DDec("2e-12"),
  DAdd(DMul(DDec("1e-13"), Largest(Len(es))),
  DAdd(DMul(DMul(DDec("5e-16"), DAbs(t)), DAbs(Delta(S))),
       DMul(DDec("1e-10"), DAbs(DMul(dt, Delta(S)))))))
Plain(x1, t1) ==
  /\ ~T.relax
  /\ IF T.assign THEN VSame(x1, ks[1]) ELSE IsComb(x1, x, dt, T.b, ks)
  /\ IsTime(t1, t, N1, dt)
Relaxed(x1, t1) ==
  /\ T.relax /\ AllReported /\ Old # {}
  /\ LET gamma == DDiv(DSub(t1, t), dt) IN
     /\ near => DLe(DAbs(DSub(gamma, N1)), DDec("0.1"))
     \* gamma is known to the rounding of t only
     /\ VClose(x1, Comb(x, DMul(gamma, dt), T.b, ks, S), N0,
          DAdd(DMul(DDec("2e-14"), DAdd(VNormInf(x), DMul(DAbs(DMul(gamma, dt)), AbsSum(T.b, ks, S)))),
               DMul(DMul(DDec("5e-16"), DAdd(DAbs(t), DAbs(t1))), AbsSum(T.b, ks, S))))
     /\ \E i \in DOMAIN es :
          /\ VClose(es[i][1], x1, DDec("4e-14"), DMul(DDec("4e-14"), DAdd(VNormInf(x), DMul(DAbs(dt), AbsSum(T.b, ks, S)))))
          /\ DLe(DAbs(Residual(gamma, es[i][2])), ResTol(gamma, es[i][2]))
Done(x1, t1, dt1) ==
  /\ ph = "step" /\ Len(ks) = S
  /\ Plain(x1, t1) \/ Relaxed(x1, t1)
  /\ IsNum(dt1, dt)
  /\ ph' = "idle" /\ UNCHANGED <<q, x, t, dt, ks, ys, ds, near, es>>
\* only a relaxation step can fail; nothing has then moved
Failed(x1, t1) ==
  /\ ~near /\ ph = "step" /\ Len(ks) = S /\ T.relax /\ AllReported
  /\ VSame(x1, x) /\ DEq(t1, t)
  \* it tried: the search used its evaluations, or met a value that is no number
  /\ Len(es) >= 10 \/ \E i \in DOMAIN es : DIsNaN(es[i][2]) \/ ~VFinite(es[i][1]) \/ ~DIsFinite(es[i][2])
  /\ ph' = "idle" /\ UNCHANGED <<q, x, t, dt, ks, ys, ds, near, es>>
=============================================================================
