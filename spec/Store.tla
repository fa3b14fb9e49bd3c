-------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The checkpoint store behind ASCIILogger / BinaryLogger                  *)
(* (src/common/data_logging.hpp).  A save is keyed by format, field name,  *)
(* time step and MPI rank; a read returns exactly the latest value saved   *)
(* under its key: the time and the whole vector, size included.  Nothing   *)
(* but a save under the same key changes what a read returns - not a save  *)
(* under another key, not a read, not the end of the process.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Formats, Fields, Steps, Ranks, Values   \* Values: what a save stores

Key == Formats \X Fields \X Steps \X Ranks

VARIABLES store    \* function from the keys saved so far to their last value

vars == <<store>>

Init == store = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Save(k, v) == store' = Put(store, k, v)

\* What a read of k gives: the saved value, or nothing when k was never saved.
ReadResult(k) == IF k \in DOMAIN store THEN <<store[k]>> ELSE <<>>

Read(k, r) == r = ReadResult(k) /\ UNCHANGED store

Restart == UNCHANGED store      \* the process ends and another one reads on

(***************************************************************************)
(* The design of the implementation: one file per key in a directory per   *)
(* format.  FileOf must be injective on keys for the store to be a map.    *)
(***************************************************************************)
FileOf(k) == k[1] \o "/" \o k[2] \o "_" \o ToString(k[3]) \o "_" \o ToString(k[4])
=============================================================================
