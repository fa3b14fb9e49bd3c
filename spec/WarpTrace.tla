----------------------------- MODULE WarpTrace -----------------------------
EXTENDS Warp, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
RInv(a) == DDiv(DInt(1), a)
Eager(x) == TLCEval(x)
Tol(eps, v, w) == DMul(DDec(eps), DAdd(DInt(1), DMul(DInt(50), DAdd(VNormInf(v), VNormInf(w)))))
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : DLe(DAbs(DSub(a[i], b[i])), t)
K(o, X, d) == TLCEval(Stiff(o, X, d))
Surf(in) == IF "surf_mesh_coords" \in DOMAIN in THEN in["surf_mesh_coords"] ELSE <<>>
Expected(o, in) == TLCEval(Rows(o, in["state"], Surf(in), K(o, o.X, TLCEval(Diff(in["state"], o.X)))))
\* the nodes of the surface are those of the boundary elements
BuildOk(e) ==
  /\ Near(e.vol, e.X, DDec("1e-14"))
  /\ {e.S[i] : i \in 1..Len(e.S)} = {e.bdr[k][c] : k \in 1..Len(e.bdr), c \in 1..e.dim}
  /\ \A i, j \in 1..Len(e.S) : e.S[i] = e.S[j] => i = j
  /\ Near(e.surf, [i \in 1..Len(e.S) |-> e.X[e.S[i]]], DDec("1e-14"))
  /\ e.size = Len(e.X) /\ e.volsize = Len(e.X) /\ e.surfsize = Len(e.S)
\* a solve that says it converged; the guess gives the surface
SolveOk(o, e) ==
  LET r == TLCEval(Rows(o, e.out, <<>>, K(o, o.X, TLCEval(Diff(e.out, o.X))))) IN
  /\ Len(e.out) = Len(e.guess)
  /\ \A i \in 1..Len(o.S) : DLe(DAbs(DSub(e.out[o.S[i]], e.guess[o.S[i]])), DMul(DDec("1e-13"), DAdd(DInt(1), DAbs(e.guess[o.S[i]]))))
  /\ Near(r, [i \in 1..Len(r) |-> DInt(0)], DDec("1e-8"))
  \* what K leaves unchanged is reproduced: the solution is unique
  /\ (e.exact # <<>> => Near(e.out, e.exact, DDec("1e-7")))
Solved(o, e) == [o EXCEPT !.at = o.X]
Pick(v, S) == [i \in 1..Len(S) |-> v[S[i]]]
AdjointOk(o, e) == Near(Backward(o, e.adj, K(o, o.at, Inside(o, e.adj))), e.bar, Tol("1e-9", e.bar, e.adj))
TNext ==
  \/ Is("Reset") /\ op' = None
  \/ Is("Build") /\ BuildOk(Ev) /\ Build(Ev.dim, Ev.els, Ev.X, Ev.S)
  \/ Is("Residual") /\ Call(Ev.in) /\ Near(Ev.res, Expected(op', Ev.in), Tol("1e-13", Ev.in["state"], op'.X))
  \/ Is("Norm") /\ Call(Ev.in) /\ LET n == VNorm(Expected(op', Ev.in)) IN DLe(DAbs(DSub(Ev.norm, n)), DMul(DDec("1e-11"), DAdd(DInt(1), n)))
  \/ Is("Solve") /\ Has /\ op' = Solved(op, Ev) /\ SolveOk(op, Ev)
  \/ Is("Linearize") /\ Linearize(Ev.in)
  \/ Is("Jvp") /\ Linearized /\ UNCHANGED op
     /\ Near(VSub(Ev.after, Ev.before),
             IF Ev.wrt = "state" THEN Forward(op, Ev.dot, K(op, op.at, Ev.dot))
             ELSE [i \in 1..Len(Ev.before) |-> IF i \in Surface(op) THEN DNeg(Ev.dot[Where(op, i)]) ELSE DInt(0)],
             Tol("1e-13", Ev.dot, Ev.before))
  \/ Is("Vjp") /\ Linearized /\ UNCHANGED op
     /\ Near(VSub(Ev.after, Ev.before),
             IF Ev.wrt = "state" THEN Backward(op, Ev.bar, K(op, op.at, TLCEval(Inside(op, Ev.bar))))
             ELSE [i \in 1..Len(op.S) |-> DNeg(Ev.bar[op.S[i]])],
             Tol("1e-13", Ev.bar, Ev.before))
  \/ Is("Other") /\ Linearized /\ UNCHANGED op /\ Ev.after = Ev.before
  \/ Is("Adjoint") /\ Linearized /\ UNCHANGED op /\ AdjointOk(op, Ev) /\ Ev.seed = Ev.bar
  \* surface sensitivity of a linear functional of the state: through the adjoint, and by solving with the moved surface
  \/ Is("Total") /\ Linearized /\ op' = Solved(op, Ev) /\ AdjointOk([op EXCEPT !.at = op.X], Ev)
     /\ DLe(DAbs(DSub(VDot(Ev.grad, Ev.dir), VDot(Ev.bar, VSub(Ev.out1, Ev.out0)))), Tol("1e-7", Ev.bar, Ev.out0))
  \* serial and parallel runs warp alike
  \/ Is("Both") /\ UNCHANGED op /\ Len(Ev.one.x) = Len(Ev.two.x) /\ Near(Ev.one.x, Ev.two.x, DDec("1e-12")) /\ Near(Ev.one.y, Ev.two.y, DDec("1e-8"))
       /\ Ev.one.surf = Ev.two.surf /\ Ev.one.size = Ev.two.size
  \/ Is("End") /\ UNCHANGED op
TSpec == TInit /\ [][TNext]_<<op, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
