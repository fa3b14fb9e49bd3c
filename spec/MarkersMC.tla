----------------------------- MODULE MarkersMC -----------------------------
\* Every short history over a mesh with four elements and three boundary
\* elements, one of them inside.
EXTENDS Markers, TLC
VARIABLE k
mv == <<vars, k>>
M == [nd |-> 3, nb |-> 2, domain |-> <<1, 3, 1, 3>>, boundary |-> <<2, 1, 2>>, bdr |-> <<2, 1>>, internal |-> <<2>>, face |-> <<1, 1>>,
      battr |-> <<2, 1, 2>>, bdofs |-> <<<<1, 2>>, <<2, 3>>, <<4>>>>,
      dofs |-> [domain |-> <<<<1, 2>>, <<2, 3>>, <<3, 4>>, <<4, 5>>>>, boundary |-> <<<<1, 2>>, <<2, 3>>, <<4>>>>,
                bdr |-> <<<<1, 2>>, <<2, 3>>>>, internal |-> <<<<2, 3, 4>>>>, face |-> <<<<2, 3, 4>>, <<3, 4, 5>>>>]]
Lists == {<<>>, <<1>>, <<3, 1>>, <<2, 2>>, <<0>>}
Entries == {[kind |-> "list", list |-> l] : l \in Lists} \cup {[kind |-> s, list |-> <<>>] : s \in {"all", "none", "some"}}
Seqs(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
MCInit == Init /\ k = 0
Tick == k < 5 /\ k' = k + 1
MCLoad == k = 0 /\ Tick /\ Load(M)
MCMark == k = 0 /\ Tick /\ \E e \in Entries, n \in 1..3, ok \in BOOLEAN : \E a \in [1..n -> 0..1] : Mark(e, n, ok, a)
MCBuild == Tick /\ \E f \in Kinds : form = "" /\ Build(f)
MCAdd == Tick /\ \E p \in {"domain", "bdr", "internal", "face"} : AddAll(p)
MCAddOn == Tick /\ \E p \in {"domain", "bdr", "internal"}, l \in Lists, ok \in BOOLEAN : AddOn(p, l, ok)
MCReselect == Tick /\ \E l \in Lists, ok \in BOOLEAN : Reselect(l, ok)
MCEssential == Tick /\ mesh # None /\ \E e \in Entries, ok \in BOOLEAN : Essential(e, ok, Seqs(DofsOf(Resolve(e, mesh.nb).set)))
MCEval == Tick /\ form # "" /\ terms # <<>> /\ LET v == [i \in 1..Len(terms) |-> Seqs(Visited(terms[i]))] IN
            Eval(v, Seqs(Touched \ DofsOf(ess)), Count(v))
MCNext == MCLoad \/ MCMark \/ MCBuild \/ MCAdd \/ MCAddOn \/ MCReselect \/ MCEssential \/ MCEval
MCSpec == MCInit /\ [][MCNext]_mv
\* a term on some attributes and one on the others share nothing and miss nothing
Partition == mesh # None =>
  \A p \in {"domain", "boundary", "bdr", "internal"} : \A s \in SUBSET (1..Size(p)) :
    LET a == Visited([place |-> p, sel |-> s])
        b == Visited([place |-> p, sel |-> (1..Size(p)) \ s])
    IN a \cap b = {} /\ a \cup b = Visited([place |-> p, sel |-> All])
EssIsBoundary == mesh # None => DofsOf(ess) \subseteq DofsOf(1..mesh.nb) /\ (form = "functional" => ess = {})
=============================================================================
