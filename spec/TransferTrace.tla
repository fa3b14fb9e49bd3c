--------------------------- MODULE TransferTrace ---------------------------
EXTENDS Transfer, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
RInv(a) == DDiv(DInt(1), a)
Size(v) == VNormInf(v)
\* values at the output nodes, element after element, component after component
FieldOk(o, e) ==
  /\ Len(e.out) = Len(o.els)
  /\ \A k \in 1..Len(o.els) :
       LET s == o.els[k]  N == Len(s.b) IN
       \A n \in 1..N :
         LET f == TLCEval(Field(o, k, n)) IN
         /\ Len(e.out[k]) = N * Len(f)
         /\ \A c \in 1..Len(f) : DLe(DAbs(DSub(e.out[k][(c - 1) * N + n], f[c])), DMul(DDec("1e-11"), DAdd(DInt(1), DMul(Size(o.state), DInt(200)))))
Near(a, b, s) == DLe(DAbs(DSub(a, b)), s)
D2(q, h) == DDiv(DSub(q[3], q[2]), DMul(DInt(2), h))
D4(q, h) == DDiv(DSub(DMul(DInt(8), DSub(q[3], q[2])), DSub(q[4], q[1])), DMul(DInt(12), h))
Abs4(q, h) == DDiv(DAdd(DAdd(DAbs(q[1]), DAbs(q[2])), DAdd(DAbs(q[3]), DAbs(q[4]))), h)
\* the length of a curl has no derivative where it is zero: nothing is asked there but a number
Smooth(o) == o.kind # "mag" \/ ~(\A i \in 1..Len(o.state) : DEq(o.state[i], DInt(0)))
SlopeOk(e) ==
  LET g == DSub(VDot(e.after, e.dir), VDot(e.before, e.dir))
      r == DMul(DDec("1e-13"), DMul(VNorm(e.dir), DAdd(VNorm(e.after), VNorm(e.before)))) IN
  Near(g, D4(e.F, e.h), DAdd(r, DAdd(DAdd(DMul(DDec("1e-7"), DAdd(DAbs(g), DAbs(D4(e.F, e.h)))), DMul(DRat(1, 10), DAbs(DSub(D4(e.F, e.h), D2(e.F, e.h))))),
                         DAdd(DMul(DDec("4e-14"), DAdd(Abs4(e.F, e.h), DDiv(e.size, e.h))), DDec("1e-11")))))
TNext ==
  \/ Is("Reset") /\ op' = None
  \/ Is("Build") /\ Build(Ev.kind, Ev.dim, Ev.els, Ev.coords, Ev.state) /\ Ev.size = Ev.total
  \/ Is("Set") /\ Give(Ev.in)
  \/ Is("Apply") /\ Give(Ev.in) /\ FieldOk(op', Ev)
  \/ Is("Vjp") /\ Has /\ UNCHANGED op /\ VFinite(Ev.after) /\ (Smooth(op) => SlopeOk(Ev))
       /\ (Smooth(op) \/ Ev.wrt = "mesh_coords" \/ VClose(Ev.after, Ev.before, DInt(0), DInt(0)))
  \/ Is("VjpOut") /\ Has /\ UNCHANGED op /\ VClose(Ev.after, VSub(Ev.before, Ev.bar), DDec("1e-15"), DDec("1e-15"))
  \/ Is("VjpOther") /\ Has /\ UNCHANGED op /\ Ev.after = Ev.before
  \/ Is("End") /\ UNCHANGED op
TSpec == TInit /\ [][TNext]_<<op, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
