---------------------------- MODULE FieldsTrace -----------------------------
EXTENDS Fields, Json
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
Near(x, y) == VClose(x, y, DDec("1e-12"), DDec("1e-13"))
\* every field, the one named and all others, is what it should be
Seen == /\ DOMAIN Ev.fields = DOMAIN F'
        /\ \A n \in DOMAIN F' : Near(Ev.fields[n], F'[n].val)
        /\ \A i \in DOMAIN meshes' : Near(Ev.nodes[i], F'[meshes'[i]].val)
        /\ \A n \in DOMAIN F' : Ev.where[n] = F'[n].at /\ Ev.names[n] = F'[n].label
SolverFields ==
  LET id == Ev.id
      std == [state |-> "state", dirichlet_bc |-> "state", adjoint |-> "state", residual |-> "dual"]
      names == DOMAIN std \cup DOMAIN Ev.ext \cup {"mesh_coords"} IN
  /\ DOMAIN Ev.shapes = names /\ Ev.ns = Ev.states /\ Ev.asked = TRUE
  /\ \A n \in DOMAIN std : Shaped(Ev.shapes[n], Family(Ev.basis, FALSE), Ev.dim, Ev.degree, Ev.states, TRUE)
  /\ \A n \in DOMAIN Ev.ext : Shaped(Ev.shapes[n], Family(Ev.ext[n].basis, FALSE), Ev.dim, Ev.ext[n].degree, Ev.ext[n].states, TRUE)
  /\ Ev.shapes["mesh_coords"] = Ev.xshape
  /\ LET of(n) == [label |-> n, at |-> id, kind |-> IF n = "residual" THEN "dual" ELSE "state", shape |-> Ev.shapes[n],
                   val |-> IF n = "mesh_coords" THEN Ev.x ELSE Zeros(Ev.shapes[n].nl)]
         key == [k \in {id \o "." \o n : n \in names} |-> CHOOSE n \in names : k = id \o "." \o n] IN
     Solver(id, [k \in DOMAIN key |-> of(key[k])])
TInit == l = 1 /\ F = << >> /\ meshes = << >>
TNext ==
  \/ Is("Reset") /\ Forget
  \/ Is("Make") /\ Make(Ev.name, Ev.kind, Ev.shape, IF Ev.how = "plain" \/ (Ev.how = "json" /\ Ev.nameless /\ Ev.states = 1) THEN "" ELSE Ev.name, Ev.mesh) /\ Seen
     /\ CASE Ev.how = "plain" -> Shaped(Ev.shape, "H1", Ev.dim, 1, 1, TRUE)
          [] Ev.how = "json" -> Shaped(Ev.shape, Family(Ev.basis, Ev.gd), Ev.dim, Ev.degree, Ev.states, TRUE)
          [] OTHER -> Shaped(Ev.shape, Family(Ev.basis, FALSE), Ev.dim, Ev.degree, Ev.states, Ev.byvdim)
  \/ Is("CopySpace") /\ CopySpace(Ev.name, Ev.from, Ev.kind) /\ Seen
     /\ Ev.shape = F[Ev.from].shape /\ Ev.apart = TRUE
  \/ Is("Move") /\ Move(Ev.name, Ev.from) /\ Seen
  \/ Is("Distribute") /\ Distribute(Ev.name, Ev.t) /\ Seen /\ VSame(Ev.after, Ev.t)
  \/ Is("Collect") /\ Look(Ev.name) /\ Near(Ev.t, Gather(F[Ev.name])) /\ Seen
  \/ Is("Poke") /\ Poke(Ev.name, Ev.v) /\ Seen
  \/ Is("Project") /\ Project(Ev.name, Ev.nodal) /\ Seen
     /\ LET s == F[Ev.name].shape IN Near(Ev.t, Apply(s.R, Ev.nodal)) /\ Near(Apply(s.P, Ev.t), Ev.nodal)
  \/ Is("Eval") /\ Look(Ev.name) /\ Near(Ev.got, Ev.want) /\ Seen
  \/ Is("Solver") /\ SolverFields /\ Seen
  \/ Is("SetState")
     /\ IF Ev.form = "whole" THEN UNCHANGED vars /\ VSame(Ev.t, Ev.given)
        ELSE /\ SetField(Ev.id, Ev.name, Ev.nodal)
             /\ Near(Ev.t, Apply(F[Ev.id \o "." \o Ev.name].shape.R, Ev.nodal))
     /\ Seen
  \/ Is("StateError")
     /\ IF Ev.form \in {"fun", "coef"} THEN Distribute(Ev.id \o "." \o Ev.name, Ev.t) ELSE UNCHANGED vars
     /\ Seen
  \/ Is("Coordinates") /\ UNCHANGED vars /\ Seen /\ Near(Ev.t, Gather(F[Ev.id \o ".mesh_coords"]))
  \/ Is("Size") /\ UNCHANGED vars /\ Seen
     /\ Ev.size = IF Ev.id \o "." \o Ev.name \in DOMAIN F /\ Ev.name # "residual" THEN F[Ev.id \o "." \o Ev.name].shape.nt ELSE 0
  \/ Is("Start")
     /\ IF Ev.bad > 0 THEN UNCHANGED vars /\ Ev.err = "MISOException"
        ELSE Distribute(Ev.id \o ".state", Ev.t) /\ Ev.err = ""
     /\ Seen
  \/ Is("MeshFile") /\ UNCHANGED vars /\ Seen
     /\ Ev.err = IF ~Ev.dot \/ (~Ev.given /\ Ev.ext # "mesh") THEN "MISOException" ELSE ""
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
