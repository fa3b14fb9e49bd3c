--------------------------- MODULE CurrentSource ---------------------------
\* Coil groups: every group has a scalar current density; a marked element
\* attribute has the density of its group in the direction of its source; an
\* unmarked one has none.  The load of a problem is linear in the densities;
\* it is assembled when something it depends on has changed.
EXTENDS Naturals, Sequences
CONSTANTS Times(_, _),      \* number times vector
          Plus(_, _),       \* of vectors
          Inner(_, _),
          Dir(_, _, _, _),  \* dimension, source, parameters, position
          One, Nil, NullOf(_),
          DefaultPar
VARIABLES src,    \* [dim, groups, where, stator], or <<>>
          val, cache, par,
          load    \* [units, ess, stale, held], or <<>>
vars == <<src, val, cache, par, load>>
Has == src # <<>>
HasLoad == load # <<>>
Init == src = <<>> /\ val = <<>> /\ cache = <<>> /\ par = DefaultPar /\ load = <<>>
Fill(gs, v) == [g \in gs |-> v]
Configure(dim, gs, where, stator) ==
  /\ src' = [dim |-> dim, groups |-> gs, where |-> where, stator |-> stator]
  /\ val' = Fill(gs, One) /\ cache' = Fill(gs, Nil) /\ par' = DefaultPar
\* inputs of other names are none of its business
Over(f, g) == [k \in DOMAIN f |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Set(cd, p) ==
  /\ val' = Over(val, cd)
  /\ par' = IF src.stator THEN Over(par, p) ELSE par
  /\ UNCHANGED <<src, cache>>
Updated == val' # val \/ par' # par
Store == cache' = val /\ UNCHANGED <<src, val, par>>
Clear == val' = Fill(src.groups, Nil) /\ UNCHANGED <<src, cache, par>>
Restore == val' = cache /\ UNCHANGED <<src, cache, par>>
Density(a, x) ==
  IF a \in DOMAIN src.where THEN Times(val[src.where[a].g], Dir(src.dim, src.where[a].s, par, x)) ELSE NullOf(src.dim)
\* magnets: the flux that remains at a temperature, in a direction
Magnets(dim, where) ==
  /\ src' = [dim |-> dim, groups |-> {}, where |-> where, stator |-> FALSE]
  /\ val' = <<>> /\ cache' = <<>> /\ par' = DefaultPar
\* ---- loads ----
RECURSIVE Sum(_, _, _)
Sum(v, u, gs) ==
  IF gs = {} THEN <<>>
  ELSE LET g == CHOOSE x \in gs : TRUE
           t == Times(v[g], u[g])
           r == Sum(v, u, gs \ {g}) IN IF r = <<>> THEN t ELSE Plus(t, r)
Free(ess, v) == [i \in 1..Len(v) |-> IF i \in ess THEN Nil ELSE v[i]]
LoadOf(v) == Free(load.ess, Sum(v, load.units, src.groups))
NoLoad == UNCHANGED load
LBuild(dim, gs, where, stator, units, ess) ==
  Configure(dim, gs, where, stator) /\ load' = [units |-> units, ess |-> ess, stale |-> TRUE, held |-> <<>>]
\* the units depend on the mesh and the parameters
LSet(cd, p, units) == Set(cd, p) /\ load' = [load EXCEPT !.units = units, !.stale = load.stale \/ Updated]
LMove(units) == load' = [load EXCEPT !.units = units, !.stale = TRUE] /\ UNCHANGED <<src, val, cache, par>>
LAssemble == load' = [load EXCEPT !.stale = FALSE, !.held = IF load.stale THEN LoadOf(val) ELSE load.held]
             /\ UNCHANGED <<src, val, cache, par>>
\* the derivative by one group leaves the densities as they were
LVjp == cache' = val /\ load' = [load EXCEPT !.stale = TRUE] /\ UNCHANGED <<src, val, par>>
GroupBar(bar, g) == Inner(bar, Free(load.ess, load.units[g]))
=============================================================================
