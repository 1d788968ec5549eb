---------------------------- MODULE EndlessTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the endless mode (P03).  Every load of a file gets its *)
(* own number; event j of load i is the number i*10 + j.                   *)
(* Run: size, reps, add, fcap, bcap, workers,                              *)
(*      k: events per file if all files have the same number, otherwise 0  *)
(*      maxk: the largest, mink: the smallest number of events (> 0)       *)
(*      ev: <<[op, n, e]>>; op = load (n events), batch (events e), cut    *)
(*          (the consumer stops reading, waits until nobody can go on),    *)
(*          last (the observer stops), hang, end, error                    *)
(***************************************************************************)
EXTENDS PipelineBounds, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)

VARIABLES tid, l, got, size, used, stopped, verdict
vars == <<tid, l, got, size, used, stopped, verdict>>
Run == Runs[tid]

Init == /\ tid \in 1..Len(Runs) /\ l = 1 /\ got = 0
        /\ size = <<>>        \* events of each load
        /\ used = <<>>        \* how often each event of each load was used
        /\ stopped = FALSE /\ verdict = ""

Occ(b, x) == Cardinality({p \in DOMAIN b : b[p] = x})
Open(u, s) == {i \in DOMAIN u : /\ \E j \in 1..s[i] : u[i][j] > 0
                                /\ \E j \in 1..s[i] : u[i][j] < Run.reps}
\* the groups that contribute to a batch one after the other are completed
\* before the next one is started
MaxGroup == GroupFiles(Run.mink, Run.size, Run.reps, Run.add) + Run.zero

Clause(e) ==
  CASE e.op = "batch" ->
         IF Len(e.e) # Run.size THEN "batch has not the requested size"
         ELSE IF \E p \in DOMAIN e.e :
                   \/ e.e[p] \div 10 \notin DOMAIN size
                   \/ e.e[p] % 10 \notin 1..size[e.e[p] \div 10]
              THEN "event does not come from the given files"
         ELSE IF \E i \in DOMAIN used' : \E j \in 1..size[i] :
                   used'[i][j] > Run.reps
              THEN "event used more often than requested"
         ELSE IF Cardinality(Open(used', size)) > MaxGroup
              THEN "events of a group of files are not all used"
         ELSE ""
    [] e.op = "load" ->
         IF Run.k > 0 /\ Len(size') > LoadBound(
               got + (IF stopped THEN 0 ELSE 1), Run.k, Run.size, Run.reps,
               Run.add, Run.fcap, Run.bcap, Run.workers)
         THEN "files loaded ahead beyond the queue capacities" ELSE ""
    [] e.op \in {"cut", "last"} -> ""
    [] e.op = "end" -> "the endless iteration ends"
    [] e.op = "hang" -> "the iteration blocks"
    [] OTHER -> "error: " \o e.op

Step ==
  /\ verdict = ""
  /\ IF l > Len(Run.ev) THEN verdict' = "ok" /\ UNCHANGED <<got, size, used, stopped>>
     ELSE LET e == Run.ev[l] IN
          /\ got' = IF e.op = "batch" THEN got + 1 ELSE got
          /\ size' = IF e.op = "load" THEN Append(size, e.n) ELSE size
          /\ used' = CASE e.op = "load" -> Append(used, [j \in 1..e.n |-> 0])
                       [] e.op = "batch" ->
                            [i \in DOMAIN used |-> [j \in 1..size[i] |->
                               used[i][j] + Occ(e.e, i * 10 + j)]]
                       [] OTHER -> used
          /\ stopped' = (stopped \/ e.op = "cut")
          /\ verdict' = Clause(e)
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ verdict' = "" \/ PrintT(ToJson([tid |-> tid, l |-> l,
                                     verdict |-> verdict']))
TSpec == Init /\ [][Step]_vars
=============================================================================
