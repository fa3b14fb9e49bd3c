------------------------- MODULE CurrentSourceTrace -------------------------
EXTENDS CurrentSource, IEEE, Json, TLC
VARIABLE l
Trace == ndJsonDeserialize("trace.ndjson")
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.event = e /\ l' = l + 1
I(n) == DInt(n)
Pi == DDec("3.14159265358979323846")
TPar == [n |-> 24, len |-> DDec("0.345")]
TNull(d) == IF d = 2 THEN <<I(0)>> ELSE <<I(0), I(0), I(0)>>
Rad(x) == DSqrt(DAdd(DMul(x[1], x[1]), DMul(x[2], x[2])))
Unit(v) == VScale(DDiv(I(1), VNorm(v)), v)
Signed(s, v) == IF s = 1 THEN v ELSE VScale(I(0 - 1), v)
Sgn(x) == IF DLt(x, I(0)) THEN I(0 - 1) ELSE IF DLt(I(0), x) THEN I(1) ELSE I(0)
\* a winding's slot is the one whose axis is nearest; along the stack the
\* current goes up on one half of the slot and down on the other; beyond it,
\* it turns about the axis of the slot
Stator(s, p, x) ==
  LET thw == DDiv(DMul(I(2), Pi), I(p.n))
      cs == TLCEval([k \in 0..(p.n - 1) |-> DCos(DMul(I(k), thw))])
      sn == TLCEval([k \in 0..(p.n - 1) |-> DSin(DMul(I(k), thw))])
      al == TLCEval([k \in 0..(p.n - 1) |-> DAdd(DMul(x[1], cs[k]), DMul(x[2], sn[k]))])
      w == CHOOSE k \in 0..(p.n - 1) : \A j \in 0..(p.n - 1) : DLe(al[j], al[k])
      half == DDiv(p.len, I(2))
      side == DSub(DMul(x[2], cs[w]), DMul(x[1], sn[w]))
      rz == IF DLt(half, x[3]) THEN DSub(x[3], half) ELSE DAdd(x[3], half)
      turn == <<DNeg(DMul(rz, sn[w])), DMul(rz, cs[w]), DSub(DMul(x[1], sn[w]), DMul(x[2], cs[w]))>> IN
  IF DLe(DAbs(x[3]), half) THEN <<I(0), I(0), IF s = 1 THEN Sgn(side) ELSE DNeg(Sgn(side))>>
  ELSE Signed(0 - s, Unit(turn))
Arm == DDec("0.075")
\* a racetrack: straight sides, quarter circles about the corners of a square
Race(x) ==
  LET inx == DLe(DAbs(x[1]), Arm)
      iny == DLe(DAbs(x[2]), Arm)
      cx == DMul(Sgn(x[1]), Arm)
      cy == DMul(Sgn(x[2]), Arm) IN
  IF iny THEN <<I(0), Sgn(x[1]), I(0)>>
  ELSE IF inx THEN <<DNeg(Sgn(x[2])), I(0), I(0)>>
  ELSE Unit(<<DSub(cy, x[2]), DSub(x[1], cx), I(0)>>)
Box(s, x) == DMul(I(6 * s), DSub(x[2], DDec("0.5")))
TDir(d, s, p, x) ==
  IF d = 2 THEN
    CASE s = "z" -> <<I(0 - 1)>> [] s = "-z" -> <<I(1)>> [] s = "box1" -> <<DNeg(Box(0 - 1, x))>> [] s = "box2" -> <<DNeg(Box(1, x))>>
  ELSE
    CASE s = "x" -> <<I(1), I(0), I(0)>> [] s = "y" -> <<I(0), I(1), I(0)>> [] s = "z" -> <<I(0), I(0), I(1)>>
      [] s = "-z" -> <<I(0), I(0), I(0 - 1)>>
      [] s = "ring" -> <<DNeg(DDiv(x[2], Rad(x))), DDiv(x[1], Rad(x)), I(0)>>
      [] s = "box1" -> <<I(0), I(0), Box(0 - 1, x)>> [] s = "box2" -> <<I(0), I(0), Box(1, x)>>
      [] s = "team13" -> Race(x)
      [] s = "cwStator" -> Stator(1, p, x) [] s = "ccwStator" -> Stator(0 - 1, p, x)
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : DLe(DAbs(DSub(a[i], b[i])), t)
H == DDec("1e-6")
Shift(x, d, t) == [x EXCEPT ![d] = DAdd(@, t)]
\* position derivative of the density, spread over the nodes
EvalOk(e) ==
  LET v == Density(e.attr, e.x)
      sc == DAdd(I(1), VNormInf(v))
      dx == TLCEval([d \in 1..Len(e.x) |-> DDiv(VDot(e.Vbar, VSub(Density(e.attr, Shift(e.x, d, H)), Density(e.attr, Shift(e.x, d, DNeg(H))))), DMul(I(2), H))])
      big == DAdd(sc, VNormInf(dx)) IN
  /\ Near(e.V, v, DMul(DDec("1e-12"), sc))
  /\ \A d \in 1..Len(e.x) : Near(VSub(e.P[d], e.P0[d]), VScale(dx[d], e.shape), DMul(DDec("1e-6"), big))
MWh(e) == [a \in {e.where[i].a : i \in 1..Len(e.where)} |-> e.where[CHOOSE j \in 1..Len(e.where) : e.where[j].a = a]]
MDir2(s, x) ==
  LET r == Rad(x) IN
  CASE s = "north" -> <<DDiv(x[1], r), DDiv(x[2], r)>> [] s = "south" -> <<DNeg(DDiv(x[1], r)), DNeg(DDiv(x[2], r))>>
    [] s = "cw" -> <<DNeg(DDiv(x[2], r)), DDiv(x[1], r)>> [] s = "ccw" -> <<DDiv(x[2], r), DNeg(DDiv(x[1], r))>>
    [] s = "x" -> <<I(1), I(0)>> [] s = "y" -> <<I(0), I(1)>> [] s = "z" -> <<I(0), I(0)>>
MDir(s, x) == IF Len(x) = 2 THEN MDir2(s, x) ELSE MDir2(s, x) \o <<IF s = "z" THEN I(1) ELSE I(0)>>
MZero(x) == [i \in 1..Len(x) |-> I(0)]
Rate(w) == DDiv(w.alpha, I(100))
Remnant(w, t) == DMul(w.br, DAdd(I(1), DMul(Rate(w), DSub(t, w.ref))))
Magnetization(a, x, t) == IF a \in DOMAIN src.where THEN VScale(Remnant(src.where[a], t), MDir(src.where[a].s, x)) ELSE MZero(x)
ByTemp(a, x) == IF a \in DOMAIN src.where THEN VScale(DMul(src.where[a].br, Rate(src.where[a])), MDir(src.where[a].s, x)) ELSE MZero(x)
MEvalOk(e) ==
  LET v == Magnetization(e.attr, e.x, e.temp)
      dx == TLCEval([d \in 1..Len(e.x) |-> DDiv(VDot(e.Vbar, VSub(Magnetization(e.attr, Shift(e.x, d, H), e.temp), Magnetization(e.attr, Shift(e.x, d, DNeg(H)), e.temp))), DMul(I(2), H))]) IN
  /\ Near(e.V, v, DDec("1e-12"))
  /\ Near(e.dV, ByTemp(e.attr, e.x), DDec("1e-13"))
  /\ \A d \in 1..Len(e.x) : Near(VSub(e.P[d], e.P0[d]), VScale(dx[d], e.shape), DMul(DDec("1e-6"), DAdd(I(10), VNormInf(dx))))
\* the irrotational part of a density is taken away: with the gradients of G
\* and K the products of the mass matrix with them, G^T (J - K p) = 0
UnitOf(ref, u) == VSub(u.J, MatVec(ref.K, u.p))
UnitOk(ref, u) == VNormInf(MatTVec(ref.G, UnitOf(ref, u)))
Of(s, g) == CHOOSE i \in 1..Len(s) : s[i].g = g
TUnits(ref) == TLCEval([g \in {ref.units[i].g : i \in 1..Len(ref.units)} |-> UnitOf(ref, ref.units[Of(ref.units, g)])])
RefOk(ref) == \A i \in 1..Len(ref.units) : DLe(UnitOk(ref, ref.units[i]), DMul(DDec("1e-11"), DAdd(DDec("1e-6"), VNormInf(ref.units[i].J))))
Cd(e) == [g \in {e.cd[i].g : i \in 1..Len(e.cd)} |-> e.cd[Of(e.cd, g)].v]
Wh(e) == [a \in {e.where[i].a : i \in 1..Len(e.where)} |-> LET i == CHOOSE j \in 1..Len(e.where) : e.where[j].a = a IN [g |-> e.where[i].g, s |-> e.where[i].s]]
SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE MaxOf(_, _)
MaxOf(v, gs) == IF gs = {} THEN I(0) ELSE LET g == CHOOSE x \in gs : TRUE IN DMax(DAbs(v[g]), MaxOf(v, gs \ {g}))
Scale == DMul(DAdd(I(1), MaxOf(val, src.groups)), DAdd(DDec("1e-3"), MaxOf([g \in src.groups |-> VNormInf(load.units[g])], src.groups)))
MeshOk(e) ==
  LET up == TUnits(e.plus)
      um == TUnits(e.minus)
      b == TLCEval(Free(load.ess, e.bar))
      lp == VDot(b, Sum(val, up, src.groups))
      lm == VDot(b, Sum(val, um, src.groups))
      fd == DNeg(DDiv(DSub(lp, lm), DMul(I(2), e.h)))
      an == VDot(VSub(e.after, e.before), e.dir) IN
  /\ RefOk(e.plus) /\ RefOk(e.minus)
  /\ DLe(DAbs(DSub(fd, an)), DMul(DDec("1e-5"), DAdd(Scale, DAdd(DAbs(fd), VNorm(VSub(e.after, e.before))))))
TInit == Init /\ l = 1
TNext ==
  \/ Is("Reset") /\ src' = <<>> /\ val' = <<>> /\ cache' = <<>> /\ par' = DefaultPar /\ load' = <<>>
  \/ Is("Configure") /\ Configure(Ev.dim, SetOf(Ev.groups), Wh(Ev), Ev.stator) /\ NoLoad
  \/ Is("Set") /\ Has /\ Set(Cd(Ev), Ev.par) /\ NoLoad /\ Ev.updated = Updated
  \/ Is("Cache") /\ Store /\ NoLoad
  \/ Is("Zero") /\ Clear /\ NoLoad
  \/ Is("Restore") /\ Restore /\ NoLoad /\ Ev.ok
  \/ Is("Eval") /\ EvalOk(Ev) /\ UNCHANGED vars
  \/ Is("Magnets") /\ Magnets(Ev.dim, MWh(Ev)) /\ NoLoad
  \/ Is("MEval") /\ MEvalOk(Ev) /\ UNCHANGED vars
  \/ Is("LBuild") /\ RefOk(Ev.ref) /\ LBuild(3, SetOf(Ev.groups), Wh(Ev), Ev.stator, TUnits(Ev.ref), SetOf(Ev.ess)) /\ Ev.size = Len(Ev.ref.K)
  \/ Is("LSet") /\ RefOk(Ev.ref) /\ LSet(Cd(Ev), Ev.par, TUnits(Ev.ref))
  \/ Is("LMove") /\ RefOk(Ev.ref) /\ LMove(TUnits(Ev.ref))
  \/ Is("LAdd") /\ LAssemble /\ Near(VSub(Ev.before, Ev.after), load'.held, DMul(DDec("1e-7"), Scale))
     /\ \A i \in load.ess : Ev.before[i] = Ev.after[i]
  \/ Is("LVjp") /\ Ev.ok
     /\ IF \E g \in src.groups : Ev.wrt = "group:" \o g
        THEN LVjp /\ LET g == CHOOSE x \in src.groups : Ev.wrt = "group:" \o x IN
                     DLe(DAbs(DAdd(GroupBar(Ev.bar, g), Ev.out)), DMul(DDec("1e-6"), DAdd(Scale, VNorm(Ev.bar))))
        ELSE UNCHANGED vars /\ DEq(Ev.out, I(0))
  \/ Is("LVjpMesh") /\ IF Ev.wrt = "mesh_coords" THEN LAssemble /\ MeshOk(Ev) ELSE UNCHANGED vars /\ Ev.after = Ev.before
  \/ Is("End") /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
