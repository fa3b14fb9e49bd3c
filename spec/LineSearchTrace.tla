--------------------------- MODULE LineSearchTrace --------------------------
EXTENDS LineSearch, LineSearchRules, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1

TInit == Init /\ l = 1
Params == [phi0 |-> Ev.phi0, dphi0 |-> Ev.dphi0, alpha |-> Ev.alpha, mu |-> Ev.mu,
           lo |-> Ev.lo, hi |-> Ev.hi, order |-> Ev.order, maxit |-> Ev.maxit]
TBegin == Is("Begin") /\ Start(Params)
TEval == Is("Eval") /\ Eval(Ev.alpha, Ev.phi)
TReturn == Is("Return") /\ Return(Ev.alpha)
TNext == TBegin \/ TEval \/ TReturn
TSpec == TInit /\ [][TNext]_<<vars, l>>
TStepSound == st = "idle" /\ hist # <<>> /\ res # Zero =>
   TArmijo(p, res, Last[2]) /\ DIsFinite(Last[2])
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
