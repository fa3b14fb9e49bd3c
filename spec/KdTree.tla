------------------------------- MODULE KdTree -------------------------------
(***************************************************************************)
(* Nearest-neighbour tree (src/utils/kdtree.hpp) as a multiset of data.    *)
(*  nodes   the data stored, in the order added: [pt, id]                  *)
(*  built   "no" before the first build, "yes", or "stale" when data was   *)
(*          added since (then it must be finalized again before a query)   *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Dist(_, _),        \* distance of two points
          Leq(_, _),         \* of two distances, up to rounding
          SameD(_, _)        \* the reported distance is that distance

VARIABLES nodes, built
vars == <<nodes, built>>
Init == nodes = <<>> /\ built = "no"
Reset == nodes' = <<>> /\ built' = "no"

Add(p, i) == /\ nodes' = Append(nodes, [pt |-> p, id |-> i])
             /\ built' = IF built = "no" THEN "no" ELSE "stale"
Finalize == built' = "yes" /\ UNCHANGED nodes
\* the constructors take bare points; their data is the default index
Make(ps) == /\ nodes' = [k \in 1..Len(ps) |-> [pt |-> ps[k], id |-> -1]]
            /\ built' = "yes"

Nearest(q, k) == \A j \in 1..Len(nodes) : Leq(Dist(nodes[k].pt, q), Dist(nodes[j].pt, q))
Query(q, id, d, err) ==
  /\ IF nodes = <<>> THEN err
     ELSE /\ built = "yes" /\ ~err
          /\ \E k \in 1..Len(nodes) : nodes[k].id = id /\ Nearest(q, k) /\ SameD(d, Dist(nodes[k].pt, q))
  /\ UNCHANGED vars
Empty(r) == r = (nodes = <<>>) /\ UNCHANGED vars
=============================================================================
