----------------------------- MODULE FacadeTrace -----------------------------
EXTENDS Facade, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
\* the distance of the state from a vector, over all ranks: every rank's
\* values are shifted alike, so each has the same share
Dist(a, b, nr) == DSqrt(DInt(nr * SumSq([i \in 1..NS |-> a[i] - b[i]])))
TNext ==
  \/ Is("Reset") /\ UNCHANGED vars
  \/ Is("Setup") /\ Setup(Ev.kind, Ev.bufs)
  \/ Is("create") /\ Create(Ev.o, Ev.kind, Ev.n, Ev.k, Ev.deep, Ev.req, Ev.err)
  \/ Is("size") /\ Size(Ev.o, Ev.n, Ev.err)
  \/ Is("options") /\ Options(Ev.o, Ev.k, Ev.err)
  \/ Is("calc") /\ Calc(Ev.o, Ev.in, Ev.got, Ev.err)
  \/ Is("partial") /\ Partial(Ev.o, Ev.in, Ev.wrt, Ev.pre, Ev.post, Ev.err)
  \/ Is("jvp") /\ Jvp(Ev.o, Ev.in, Ev.wrt, Ev.d, Ev.pre, Ev.post, Ev.err)
  \/ Is("vjp") /\ Vjp(Ev.o, Ev.in, Ev.wrt, Ev.d, Ev.pre, Ev.post, Ev.err)
  \/ Is("touch") /\ Touch(Ev.b, Ev.v)
  \/ Is("residual") /\ Residual(Ev.in, Ev.got, Ev.err)
  \/ Is("norm") /\ Norm(Ev.in, Ev.err) /\ (IF Ev.err = "" THEN Ev.got = DSqrt(DInt(NormSq(res'.f, Ev.nr))) ELSE TRUE)
  \/ Is("linearize") /\ Linearize(Ev.in, Ev.err)
  \/ Is("rjvp") /\ RJvp(Ev.wrt, Ev.d, Ev.scalar, Ev.pre, Ev.post, Ev.err)
  \/ Is("rvjp") /\ RVjp(Ev.wrt, Ev.d, Ev.scalar, Ev.pre, Ev.post, Ev.err)
  \/ Is("adjoint") /\ Adjoint("p", Ev.err)
  \/ Is("unsteady") /\ Unsteady(Ev.on)
  \/ Is("statesize") /\ StateSize(Ev.n, Ev.err)
  \/ Is("fieldsize") /\ FieldSize(Ev.name, Ev.n, Ev.err)
  \/ Is("setstate") /\ UNCHANGED vars /\ Ev.got = bufs[Ev.b] /\ Ev.kept = bufs[Ev.b]
     /\ DClose(Ev.err, Dist(bufs[Ev.b], Ev.pre, Ev.nr), DDec("1e-13"), DDec("1e-13"))
     /\ DClose(Ev.errv, Dist(bufs[Ev.b], Ev.pre, Ev.nr), DDec("1e-13"), DDec("1e-13"))
  \/ Is("End") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
