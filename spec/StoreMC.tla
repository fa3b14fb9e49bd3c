------------------------------- MODULE StoreMC ------------------------------
(* Exhaustive instance.  files is the implementation's disk; it must refine *)
(* the abstract map under every history of saves, reads and restarts.       *)
EXTENDS Store
VARIABLES files, last
mcvars == <<store, files, last>>
MCInit == Init /\ files = <<>> /\ last = <<>>
MCSave == \E k \in Key, v \in Values :
            /\ Save(k, v) /\ files' = Put(files, FileOf(k), v) /\ last' = <<>>
MCRead == \E k \in Key :
            LET f == FileOf(k)
                r == IF f \in DOMAIN files THEN <<files[f]>> ELSE <<>> IN
            /\ last' = <<k, r>> /\ UNCHANGED <<store, files>>
MCRestart == Restart /\ last' = <<>> /\ UNCHANGED files
MCNext == MCSave \/ MCRead \/ MCRestart
MCSpec == MCInit /\ [][MCNext]_mcvars
ReadsLatest == last # <<>> => last[2] = ReadResult(last[1])
FilesInjective == \A j, k \in Key : FileOf(j) = FileOf(k) => j = k
OnePerKey == \A k \in DOMAIN store : files[FileOf(k)] = store[k]
OnlySaveChanges == [][\A k \in Key : ReadResult(k) # ReadResult(k)' => \E v \in Values : store' = Put(store, k, v)]_mcvars
=============================================================================
