--------------------------- MODULE MaterialsTrace ---------------------------
EXTENDS Materials, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
\* the data sheet of the library
Sheet == JsonDeserialize("materials.json")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TZero == DInt(0)
THalf == DRat(1, 2)
One == DInt(1)
\* f v1 + (1 - f) v2 and the lower Hashin-Shtrikman bound, with v1 >= v2 there
THS(a, b, w) == DDiv(DMul(b, DAdd(DMul(DAdd(One, w), a), DMul(DSub(One, w), b))),
                     DAdd(DMul(DSub(One, w), a), DMul(DAdd(One, w), b)))
TdHS(a, b, w) == LET den == DAdd(DMul(DSub(One, w), a), DMul(DAdd(One, w), b)) IN
  DDiv(DMul(DMul(DMul(DInt(2), b), DSub(a, b)), DAdd(a, b)), DMul(den, den))
TMixed(r, a, b, w) ==
  LET hi == DMax(a, b)  lo == DMin(a, b) IN
  CASE r = "average" -> DAdd(DMul(w, a), DMul(DSub(One, w), b))
    [] r = "daverage" -> DSub(a, b)
    [] r = "Hashin-Shtrikman" -> THS(hi, lo, w)
    [] r = "dHashin-Shtrikman" -> TdHS(hi, lo, w)
TNear(a, b) == DClose(a, b, DDec("1e-12"), DDec("1e-300"))
\* a curve of degree d with n control points has n + d + 1 knots, in order
CurveOk(j) == LET k == j.o["knots"].a  c == j.o["cps"].a IN
  /\ \E d \in 1..9 : j.o["degree"].n = DInt(d) /\ Len(k) = Len(c) + d + 1
  /\ \A i \in 1..(Len(k) - 1) : DLe(k[i].n, k[i + 1].n)
Curves(m) == \A n \in DOMAIN m.o : \A p \in DOMAIN m.o[n].o : LET d == m.o[n].o[p] IN
  IF IsObj(d) THEN \A q \in DOMAIN d.o : IF Has(d.o[q], "knots") THEN CurveOk(d.o[q]) ELSE TRUE ELSE TRUE
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ Same(Ev.lib, Sheet) /\ Curves(Ev.lib) = TRUE /\ Library(Ev.lib)
  \/ Is("Solver") /\ Solver(Ev.id, Ev.comps, Ev.mats)
  \/ Is("Look") /\ Look(Ev.id, Ev.lib, Ev.mats)
  \/ Is("Coeff") /\ Coeff(Ev.c, Ev.id, Ev.prop, Ev.ok)
  \/ Is("Input") /\ Input(Ev.c, Ev.name, Ev.w)
  \/ Is("Eval") /\ Ev.d = TZero /\ DSame(Ev.v, Ev.vs) /\ Eval(Ev.c, Ev.attr, Ev.v)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
