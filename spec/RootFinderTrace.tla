--------------------------- MODULE RootFinderTrace --------------------------
EXTENDS RootFinder, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
E0 == DInt(0)
TNeg(f) == DLt(f, E0)
TNonNeg(f) == DLe(E0, f)
TNonPos(f) == DLe(f, E0)
TSmallF(f, t) == DLe(DAbs(f), t)
\* points are rounded, so their distance is known to a few ulps only
Ulps(x) == DMul(DAbs(x), DDec("1e-15"))
TNarrow(x, y, t) == DLe(DAbs(DSub(x, y)), DAdd(DMul(t, DDec("1.000001")), Ulps(x)))
TSureX(x, y, t) == DLt(DAdd(DAbs(DSub(x, y)), Ulps(x)), DMul(t, DDec("0.999999")))
TMid(x, y, z) == DClose(DMul(DDec("0.5"), DAdd(x, y)), z, DDec("1e-15"), DMul(DDec("1e-15"), DAdd(DAbs(x), DAbs(y))))
TSec(o, n, x) ==
  LET dx == DDiv(DMul(n[2], DSub(n[1], o[1])), DSub(n[2], o[2]))
      w == DSub(n[1], dx) IN
  \/ DSame(w, x)
  \/ DLe(DAbs(DSub(w, x)), DAdd(DMul(DDec("1e-14"), DAbs(n[1])), DMul(DDec("1e-11"), DAbs(dx))))
  \/ ~DIsFinite(w) /\ ~DIsFinite(x)
TSmaller(f, g) == DLt(DAbs(f), DAbs(g))
TNaN(f) == DIsNaN(f)
TSame(a, b) == DSame(a, b)
TInit == Init /\ l = 1
TBegin == Is("Begin") /\ Begin(Ev.q)
TEval == Is("Eval") /\ Eval(Ev.x, Ev.f)
TFound == Is("Found") /\ Found(Ev.x)
TFailed == Is("Failed") /\ Failed
TNext == TBegin \/ TEval \/ TFound \/ TFailed
TSpec == TInit /\ [][TNext]_<<vars, l>>
BracketSound == br # <<>> /\ ph = "go" => SignChange(br[1][2], br[2][2])
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
