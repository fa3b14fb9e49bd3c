-------------------------- MODULE ComponentTrace --------------------------
EXTENDS Component, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
On(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
TInit == Init /\ l = 1
Set(s) == {s[i] : i \in 1..Len(s)}
\* the physics a component stands for, by what its options say
Short(t) == CASE t \in {"euler", "navierstokes"} -> "aero" [] t = "magnetostatic" -> "em" [] t = "thermal" -> "conduct"
\* ---- what a component declares: every dependence, with the size the solver gives it
Deps(e) == Set(e.depends)
Declared(e) ==
  CASE e.kind = "state" -> /\ DOMAIN e.inputs = Deps(e) /\ DOMAIN e.outputs = {"state"} /\ e.outputs["state"] = e.size
                           /\ \A n \in Deps(e) : e.inputs[n] = (IF e.fieldsize[n] = 0 THEN 1 ELSE e.fieldsize[n])
    [] e.kind = "functional" -> /\ DOMAIN e.inputs = Deps(e) /\ DOMAIN e.outputs = {e.func} /\ e.outputs[e.func] = e.size
                                /\ \A n \in Deps(e) \ {"state"} : e.inputs[n] = (IF e.fieldsize[n] = 0 THEN 1 ELSE e.fieldsize[n])
                                /\ e.created = e.func /\ e.createdoptions = e.options
    [] e.kind = "warper" -> /\ e.inputs = [surf_mesh_coords |-> e.surf] /\ e.outputs = [vol_mesh_coords |-> e.vol]
\* ---- what OpenMDAO gets back
Asked(e) == Set(e.ask)
\* a derivative the solver lacks, asked for with a seed
Refused(e) == IF comp.partials THEN e.raised = "" ELSE e.raised = "NotImplementedError"
Products(c, at, e) ==
  IF e.mode = "fwd"
  THEN /\ e.after.bars = e.before.bars
       /\ e.row => (IF \E n \in Asked(e) \cap c.un : ~Zero(e.before.bars[n]) THEN Refused(e)
                    ELSE /\ (\A n \in Asked(e) \cap c.un : Zero(e.before.bars[n])) /\ (Asked(e) \cap c.un = {} => e.raised = "")
                         /\ e.after.res = Forward(c, at, Asked(e), e.before.bars, e.before.res))
       /\ ~e.row => e.raised = "" /\ e.after.res = e.before.res
  ELSE /\ e.after.res = e.before.res
       /\ \A n \in DOMAIN e.before.bars \ Asked(e) : e.after.bars[n] = e.before.bars[n]
       /\ e.row => (IF Asked(e) \cap c.un # {} /\ ~Zero(e.before.res) THEN Refused(e)
                    ELSE /\ (Asked(e) \cap c.un = {} => e.raised = "")
                         /\ \A n \in Asked(e) : e.after.bars[n] = Backward(c, at, n, e.before.res, e.before.bars[n]))
       /\ ~e.row => e.raised = "" /\ e.after.bars = e.before.bars
TNext ==
  \/ On("Reset") /\ comp' = None
  \/ On("Build") /\ Declared(Ev) /\ Make(Ev.kind, Ev.codes, Ev.S, Ev.size, Ev.partials, Set(Ev.un), Ev.ranks)
     /\ (Ev.kind = "warper" => Ev.initial = Ev.given)
  \/ On("Residual") /\ Nonlinear /\ Ev.raised = "" /\ Ev.res = Residual(comp, Ev.in) /\ Ev.kept
  \/ On("Solve") /\ Nonlinear /\ Ev.raised = "" /\ Ev.out = Solved(comp, Ev.in) /\ Ev.kept
  \/ On("Linearize") /\ Linearize(Ev.in) /\ Ev.raised = "" /\ Ev.kept
  \/ On("Apply") /\ Linear /\ Products(comp, comp.lin, Ev)
  \/ On("Invert") /\ Linear /\ Ev.bar = Ev.given
     /\ IF Ev.mode = "rev" THEN Ev.raised = "" /\ Ev.out = Adjoint(comp, comp.lin, Ev.given)
        ELSE IF comp.partials THEN Ev.raised = "" ELSE Ev.raised = "NotImplementedError"
  \/ On("Compute") /\ Nonlinear /\ Is("functional") /\ Ev.raised = "" /\ Ev.out = Output(comp, Ev.in) /\ Ev.kept
  \/ On("Jacvec") /\ Nonlinear /\ Is("functional") /\ Products(comp, Ev.in, Ev) /\ Ev.kept
  \* the mesh: its coordinates under the name of the physics; anything else is refused
  \/ On("Mesh") /\ UNCHANGED comp
     /\ IF Ev.type \in {"euler", "navierstokes", "magnetostatic", "thermal"} THEN Ev.raised = "" /\ Ev.name = "x_" \o Short(Ev.type) \o "0" /\ Ev.val = Ev.given
        ELSE Ev.raised = "RuntimeError"
  \* groups: what one stage produces is what the next consumes, everything else keeps its name
  \/ On("Groups") /\ UNCHANGED comp
     /\ LET s == Short(Ev.type)  vol == "x_" \o s \o "_vol"  st == s \o "_state" IN
        /\ Ev.mesh = (IF Ev.warps THEN "x_" \o s \o "0" ELSE "NotImplementedError")
        /\ Set(Ev.warper) = (IF Ev.warps THEN {<<"surf_mesh_coords", "x_" \o s>>, <<"vol_mesh_coords", vol>>} ELSE {})
        /\ Set(Ev.state) = {<<"mesh_coords", vol>>, <<"state", st>>} \cup {<<Ev.depends[i], Ev.depends[i]>> : i \in 1..Len(Ev.depends)}
        /\ Ev.statedepends = <<"mesh_coords">> \o Ev.depends
        /\ Len(Ev.outputs) = Len(Ev.asked)
        /\ \A i \in 1..Len(Ev.asked) : LET o == Ev.outputs[i]  a == Ev.asked[i] IN
             /\ o.func = a.func /\ o.options = a.options
             /\ Set(o.promoted) = {<<a.func, a.name>>} \cup {<<d, IF d = "mesh_coords" THEN vol ELSE IF d = "state" THEN st ELSE d>> : d \in Set(a.depends)}
        /\ Ev.nodes * Ev.ndof = Ev.statesize
  \/ On("End") /\ UNCHANGED comp
TSpec == TInit /\ [][TNext]_<<comp, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
