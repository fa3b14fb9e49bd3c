----------------------------- MODULE DiagMassMC -----------------------------
\* Integer instance (weights scaled by six times the number of nodes): every
\* short history of integrators and elements with small integer Jacobians.
\* The mass of each component is the volume of the elements assembled.
EXTENDS DiagMass, FiniteSets, TLC
VARIABLES vol, k
mv == <<vars, vol, k>>
IMul(a, b) == a * b
IAdd(a, b) == a + b
ISub(a, b) == a - b
IDiv(a, b) == a \div b
Exact(a) == CHOOSE r \in 0..100 : r * r = a
IRoot(a, d) == CHOOSE r \in 0..10 : (d = 1 /\ r = a) \/ (d = 2 /\ r * r = a) \/ (d = 3 /\ r * r * r = a)
IPos(a) == a > 0
RV(d) == IF d = 1 THEN 6 ELSE IF d = 2 THEN 3 ELSE 1
INear(a, b) == a = b
Els == { [dim |-> 1, w |-> <<1, 1, 4>>, J |-> [i \in 1..3 |-> <<<<2>>>>]],
         [dim |-> 1, w |-> <<3, 3>>, J |-> [i \in 1..2 |-> <<<<3>>, <<4>>>>]],           \* in the plane, length 5
         [dim |-> 2, w |-> <<1, 1, 1>>, J |-> [i \in 1..3 |-> <<<<2, 1>>, <<0, 2>>>>]],
         [dim |-> 2, w |-> <<1, 1, 1>>, J |-> [i \in 1..3 |-> <<<<1, 2>>, <<2, 1>>, <<2, -2>>>>]],  \* in space, area 9
         [dim |-> 3, w |-> <<1>>, J |-> <<<<<<2, 0, 0>>, <<1, 2, 0>>, <<0, 1, 2>>>>>>] }
Mat(e) == LET n == Len(e.w) IN
  [c \in 1..(n * integ.ns) |-> <<c, c, Entry(integ, e.dim, e.w[((c - 1) % n) + 1], e.J[((c - 1) % n) + 1])>>]
MCInit == Init /\ vol = 0 /\ k = 0
Tick == k < 5 /\ k' = k + 1
MCMake == Tick /\ \E ns \in 1..3, v \in BOOLEAN : total = 0 /\ Make(ns, v) /\ UNCHANGED vol
MCAssemble == Tick /\ \E e \in Els :
  /\ Assemble(e.dim, e.w, e.J, <<Len(e.w) * integ.ns, Len(e.w) * integ.ns>>, Mat(e))
  /\ vol' = vol + RV(e.dim) * (IF integ.vary THEN Measure(e.J[1]) \div IRoot(Measure(e.J[1]), e.dim) ELSE Measure(e.J[1]))
MCTotal == Tick /\ Total(integ.ns * vol) /\ vol' = 0
MCNext == MCMake \/ MCAssemble \/ MCTotal
MCSpec == MCInit /\ [][MCNext]_mv
Conserved == total = integ.ns * vol
=============================================================================
