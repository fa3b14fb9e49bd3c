------------------------------ MODULE KdTreeMC ------------------------------
(* The search structure itself: every k-d tree that median splitting may    *)
(* produce for every small point set, searched from every query point, with *)
(* the pruning rule of the code.  Its answer must be one Query allows.      *)
EXTENDS KdTree, FiniteSets, TLC
CONSTANTS W, H, N
VARIABLES tree, ans
mv == <<vars, tree, ans>>
MDist(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
MLeq(a, b) == a <= b
MSameD(a, b) == a = b
Pts == (0..W) \X (0..H)
Qs == (-1..W + 1) \X (-1..H)
C(k, ax) == nodes[k].pt[ax]
RECURSIVE Trees(_, _)
Trees(S, ax) ==
  IF S = {} THEN {<<>>}
  ELSE UNION {UNION {{<<n, l, r>> : l \in Trees(L, 3 - ax), r \in Trees(S \ (L \cup {n}), 3 - ax)} :
                L \in {X \in SUBSET (S \ {n}) : /\ Cardinality(X) = Cardinality(S) \div 2
                                                 /\ \A a \in X : C(a, ax) <= C(n, ax)
                                                 /\ \A b \in S \ X : C(b, ax) >= C(n, ax)}} : n \in S}
Better(b, k, q) == IF b = <<>> \/ MDist(nodes[k].pt, q) < b[2] THEN <<k, MDist(nodes[k].pt, q)>> ELSE b
RECURSIVE Search(_, _, _, _)
Search(t, ax, q, best) ==
  IF t = <<>> THEN best
  ELSE LET b1 == Better(best, t[1], q)
           dx == C(t[1], ax) - q[ax] IN
       IF b1[2] = 0 THEN b1
       ELSE LET b2 == Search(IF dx > 0 THEN t[2] ELSE t[3], 3 - ax, q, b1) IN
            IF dx * dx >= b2[2] THEN b2 ELSE Search(IF dx > 0 THEN t[3] ELSE t[2], 3 - ax, q, b2)
MCInit == Init /\ tree = <<>> /\ ans = <<>>
MCAdd == Len(nodes) < N /\ built = "no" /\ (\E p \in Pts : Add(p, Len(nodes) + 1)) /\ UNCHANGED <<tree, ans>>
MCFinalize == built # "yes" /\ Finalize /\ (\E t \in Trees(1..Len(nodes), 1) : tree' = t) /\ UNCHANGED ans
MCQuery == /\ built = "yes" /\ ans = <<>> /\ nodes # <<>>
           /\ \E q \in Qs : ans' = <<q, Search(tree, 1, q, <<>>)>>
           /\ UNCHANGED <<vars, tree>>
MCNext == MCAdd \/ MCFinalize \/ MCQuery
MCSpec == MCInit /\ [][MCNext]_mv
SearchIsNearest == ans # <<>> => ENABLED Query(ans[1], nodes[ans[2][1]].id, ans[2][2], FALSE)
EmptyIsError == nodes = <<>> => ENABLED Query(<<0, 0>>, -1, 0, TRUE) /\ ~ENABLED Query(<<0, 0>>, -1, 0, FALSE)
=============================================================================
