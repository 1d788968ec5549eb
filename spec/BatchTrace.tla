----------------------------- MODULE BatchTrace -----------------------------
(***************************************************************************)
(* Validates recorded runs of the real batch generator against             *)
(* BatchContract.  Every run is one initial state; the verdict of each run *)
(* is printed with the clause that failed.                                 *)
(*                                                                         *)
(* A run: [n |-> number of events, reps, size, ev |-> <<step, ..>>] with   *)
(* steps [op |-> "batch", e |-> <<event ids>>], [op |-> "end"],            *)
(* [op |-> "hang"], [op |-> "error"].                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)

VARIABLES tid, l, rem, short, ended, verdict
vars == <<tid, l, rem, short, ended, verdict>>

C == INSTANCE BatchContract WITH
       Events <- 1..Runs[tid].n, Reps <- Runs[tid].reps,
       BatchSize <- Runs[tid].size

TInit == /\ tid \in 1..Len(Runs)
         /\ l = 1 /\ verdict = "" /\ C!CInit

Step == Runs[tid].ev[l]

Clause(st) ==
  IF st.op = "batch" THEN
    CASE ~C!NotAfterEnd -> "batch after the end"
      [] ~C!NotEmpty(st.e) -> "empty batch"
      [] ~C!NotOversized(st.e) -> "batch larger than the batch size"
      [] ~C!OnlyLastIsShort -> "an incomplete batch was not the last one"
      [] ~C!KnownEvents(st.e) -> "unknown event delivered"
      [] ~C!NotTooOften(st.e) -> "event delivered too often"
      [] OTHER -> ""
  ELSE IF st.op = "end" THEN
    IF ~C!AllDelivered THEN "iteration ended before all events were delivered"
    ELSE ""
  ELSE IF st.op = "hang" THEN
    IF C!AllDelivered THEN "iteration does not end"
    ELSE "iteration hangs before all events were delivered"
  ELSE "error in the consumer or a worker"

Accept ==
  /\ verdict = "" /\ l <= Len(Runs[tid].ev)
  /\ LET st == Step c == Clause(st) IN
     IF c # "" THEN
       /\ verdict' = c
       /\ UNCHANGED <<tid, l, rem, short, ended>>
       /\ PrintT(ToJson([tid |-> tid, l |-> l, verdict |-> c]))
     ELSE
       /\ \/ st.op = "batch" /\ C!Yield(st.e)
          \/ st.op = "end" /\ C!End
       /\ l' = l + 1
       /\ UNCHANGED tid
       /\ verdict' = IF l' > Len(Runs[tid].ev)
                     THEN IF ended' THEN "ok" ELSE "run without an end"
                     ELSE ""
       /\ verdict' = "" \/ PrintT(ToJson([tid |-> tid, l |-> l, verdict |-> verdict']))

TSpec == TInit /\ [][Accept]_vars
=============================================================================
