----------------------------- MODULE EventTrace -----------------------------
(***************************************************************************)
(* Integrity of the events in the batches of a recorded run (P02).         *)
(*                                                                         *)
(* A run: tensors: <<[kind, ref, dtype], ..>> (in list order; kind is      *)
(*   "plain", "value", "index" or "none"; "id" is the plain tensor that    *)
(*   carries the event's number),                                          *)
(* data: data[e][t]: the entry of event e in tensor t: a row (plain), or   *)
(*   the sequence of its vector elements / index rows (value / index),     *)
(* batches: batch -> tensor -> [dtype, rows].                              *)
(* The batch that the contract prescribes is a function of the sequence of *)
(* events it contains.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Runs == JsonDeserialize(IOEnv.RUNS)

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>

Run == Runs[tid]
NT  == Len(Run.tensors)
IdT == CHOOSE t \in 1..NT : Run.tensors[t].kind = "id"

\* the events a batch claims to contain, by position
EventsOf(b) == [i \in 1..Len(b[IdT].rows) |-> b[IdT].rows[i][1]]

SetBatchIndex(row, p) == [row EXCEPT ![1] = p]

ExpectedRows(t, evs) ==
  LET k == Run.tensors[t].kind IN
  CASE k \in {"plain", "id"} -> [i \in DOMAIN evs |-> Run.data[evs[i]][t]]
    [] k = "none" -> [i \in DOMAIN evs |-> <<0>>]
    [] k = "value" ->
         FlattenSeq([i \in DOMAIN evs |-> Run.data[evs[i]][t]])
    [] k = "index" ->
         FlattenSeq([i \in DOMAIN evs |->
            [j \in DOMAIN Run.data[evs[i]][t] |->
               SetBatchIndex(Run.data[evs[i]][t][j], i - 1)]])

Clause(b) ==
  IF Len(b) # NT THEN "wrong number of tensors"
  ELSE LET evs == EventsOf(b) IN
  IF \E i \in DOMAIN evs : evs[i] \notin 1..Len(Run.data)
  THEN "unknown event in the batch"
  ELSE IF \E t \in 1..NT : b[t].rows # ExpectedRows(t, evs)
  THEN LET t == CHOOSE t \in 1..NT : b[t].rows # ExpectedRows(t, evs)
           k == Run.tensors[t].kind IN
       CASE k = "value" -> "vector elements of another event, lost or reordered"
         [] k = "index" -> "index rows do not refer to the event's position"
         [] k = "none" -> "non-existing tensor not filled with default entries"
         [] OTHER -> "entries of different events at one position"
  ELSE IF \E t \in 1..NT : b[t].dtype # Run.tensors[t].dtype
  THEN "data type differs from the declared one"
  ELSE ""

TInit == tid \in 1..Len(Runs) /\ l = 1 /\ verdict = ""

Accept ==
  /\ verdict = ""
  /\ LET c == IF l <= Len(Run.batches) THEN Clause(Run.batches[l])
              ELSE Run.end IN
     /\ verdict' = IF c # "" THEN c
                   ELSE IF l > Len(Run.batches) THEN "ok" ELSE ""
     /\ l' = l + 1
     /\ UNCHANGED tid
     /\ verdict' = "" \/ PrintT(ToJson([tid |-> tid, l |-> l, verdict |-> verdict']))

TSpec == TInit /\ [][Accept]_vars
=============================================================================
