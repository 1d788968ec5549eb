--------------------------- MODULE CheckpointCrash ---------------------------
(***************************************************************************)
(* The steps of saving a checkpoint on disk, with a crash possible between *)
(* any two of them (P09).  files[n] = 0: incomplete file, otherwise the    *)
(* weights.  rec: the checkpoint record (or torn).                         *)
(* Protocol "legacy": prunes before the record is updated, writes the      *)
(* record in place, and refuses to write over leftovers.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS MaxSaves, Keeps, Protocol

VARIABLES files, rec, torn, pc, idx, prot, keep, w, todo,
          done,      \* weights of the newest finished checkpoint
          saving,    \* weights of the save in progress or interrupted
          pmust      \* protected checkpoints that have been finished
vars == <<files, rec, torn, pc, idx, prot, keep, w, todo, done, saving, pmust>>

Empty == [latest |-> 0, un |-> {}, pr |-> {}]
Legacy == Protocol = "legacy"

Init == /\ files = <<>> /\ rec = Empty /\ torn = FALSE /\ pc = "idle"
        /\ idx = 0 /\ prot = FALSE /\ keep = 1 /\ w = 0 /\ todo = {}
        /\ done = 0 /\ saving = 0 /\ pmust = <<>>

Newest(S, k) == {n \in S : Cardinality({m \in S : m > n}) < k}
FirstFree(n) == CHOOSE m \in n..(n + MaxSaves + 1) :
                  m \notin DOMAIN files /\ \A q \in n..(m - 1) : q \in DOMAIN files
Put(f, n, x) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN x ELSE f[m]]
NewRec == [latest |-> idx,
           un |-> IF prot THEN rec.un ELSE Newest(rec.un \cup {idx}, keep),
           pr |-> IF prot THEN rec.pr \cup {idx} ELSE rec.pr]

Begin(p, k) ==
  /\ pc = "idle" /\ w < MaxSaves /\ ~torn
  /\ w' = w + 1 /\ saving' = w + 1 /\ prot' = p /\ keep' = k
  /\ IF Legacy
     THEN /\ idx' = rec.latest + 1
          /\ pc' = IF idx' \in DOMAIN files THEN "stuck" ELSE "begin"
     ELSE /\ idx' = FirstFree(rec.latest + 1)
          /\ pc' = "begin"
  /\ UNCHANGED <<files, rec, torn, todo, done, pmust>>

WriteData == /\ pc = "begin" /\ pc' = "data"
             /\ files' = Put(files, idx, 0)
             /\ UNCHANGED <<rec, torn, idx, prot, keep, w, todo, done, saving, pmust>>
WriteIndex == /\ pc = "data"
              /\ pc' = IF Legacy THEN "prune" ELSE "record"
              /\ files' = Put(files, idx, saving)
              /\ todo' = IF Legacy THEN rec.un \ NewRec.un ELSE {}
              /\ UNCHANGED <<rec, torn, idx, prot, keep, w, done, saving, pmust>>
Prune == /\ pc = "prune"
         /\ IF todo = {}
            THEN /\ pc' = IF Legacy THEN "record" ELSE "finish"
                 /\ UNCHANGED <<files, todo>>
            ELSE \E n \in todo :
                 /\ files' = [m \in DOMAIN files \ {n} |-> files[m]]
                 /\ todo' = todo \ {n} /\ UNCHANGED pc
         /\ UNCHANGED <<rec, torn, idx, prot, keep, w, done, saving, pmust>>
\* in place: the record is truncated first; otherwise replaced in one step
Truncate == /\ Legacy /\ pc = "record" /\ torn' = TRUE /\ pc' = "record2"
            /\ UNCHANGED <<files, rec, idx, prot, keep, w, todo, done, saving, pmust>>
Record == /\ pc = (IF Legacy THEN "record2" ELSE "record")
          /\ rec' = NewRec /\ torn' = FALSE
          /\ todo' = IF Legacy THEN {} ELSE rec.un \ NewRec.un
          /\ pc' = IF Legacy THEN "finish" ELSE "prune"
          /\ UNCHANGED <<files, idx, prot, keep, w, done, saving, pmust>>
Finish == /\ pc = "finish" /\ pc' = "idle" /\ done' = saving
          /\ pmust' = IF prot THEN Put(pmust, idx, saving) ELSE pmust
          /\ UNCHANGED <<files, rec, torn, idx, prot, keep, w, todo, saving>>
\* the process dies; the next save is made by a new process that resumes
\* from what can be loaded
Crash == /\ pc \notin {"idle", "stuck"} /\ pc' = "idle" /\ todo' = {}
         /\ done' = IF rec.latest \in DOMAIN files THEN files[rec.latest] ELSE done
         /\ UNCHANGED <<files, rec, torn, idx, prot, keep, w, saving, pmust>>

Next == \/ \E p \in BOOLEAN, k \in Keeps : Begin(p, k)
        \/ WriteData \/ WriteIndex \/ Prune \/ Truncate \/ Record
        \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

LatestLoadable ==
  done > 0 => /\ ~torn
              /\ rec.latest \in DOMAIN files
              /\ files[rec.latest] \in {done, saving} /\ files[rec.latest] > 0
ProtectedLoadable == ~torn => \A n \in DOMAIN pmust :
     n \in rec.pr /\ n \in DOMAIN files /\ files[n] = pmust[n]
RecordTruthful == ~torn => \A n \in rec.un \cup rec.pr :
     Legacy \/ (n \in DOMAIN files /\ files[n] > 0)
CanResume == pc # "stuck"
Recoverable == LatestLoadable /\ ProtectedLoadable /\ RecordTruthful /\ CanResume
=============================================================================
