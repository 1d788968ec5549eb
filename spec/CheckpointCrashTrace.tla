------------------------ MODULE CheckpointCrashTrace ------------------------
(***************************************************************************)
(* Histories of saves, some of them interrupted, recorded from the real    *)
(* code (P09).  After every step a fresh object reads what is there:       *)
(*   latest: weights restored by default (0: refused, -1: wrong mixture)   *)
(*   loads[n]: weights restored for number n (0: refused)                  *)
(*   tr: entries of the training record: <<[n, cfg, steps]>>; cfg = 0: the *)
(*       stored configuration cannot be read; trok: the record is readable *)
(* step: [op: "save" | "crash", w, prot, keep, start, cfg, failed]         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.RUNS)
VARIABLES tid, l, known, lastw, train, verdict
vars == <<tid, l, known, lastw, train, verdict>>
Run == Runs[tid]

Init == /\ tid \in 1..Len(Runs) /\ l = 1 /\ known = <<>> /\ lastw = 0
        /\ train = <<>> /\ verdict = ""

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Newest(S, k) == {n \in S : Cardinality({m \in S : m > n}) < k}
Loadable(e) == {n \in DOMAIN e.loads : e.loads[n] # 0}
Prot(c) == {n \in DOMAIN c : c[n].prot}
Restrict(c, S) == [n \in S |-> c[n]]
Add(c, n, x) == [m \in DOMAIN c \cup {n} |-> IF m = n THEN x ELSE c[m]]
Kept(c, n, e) ==
  LET a == Add(c, n, [w |-> e.w, prot |-> e.prot])
      un == DOMAIN a \ Prot(a)
  IN IF e.prot THEN a ELSE Restrict(a, Prot(a) \cup Newest(un, e.keep))

NewNums(e) == {n \in Loadable(e) : n > Max(DOMAIN known)}
TrainOf(e) == [i \in {e.tr[k].n : k \in DOMAIN e.tr} |->
                 LET k == CHOOSE k \in DOMAIN e.tr : e.tr[k].n = i
                 IN [cfg |-> e.tr[k].cfg, steps |-> e.tr[k].steps]]
\* earlier training entries are as before (the newest one may get a new
\* number of steps), at most one was added
TrainClause(e, complete) ==
  LET t == TrainOf(e)
      new == DOMAIN t \ DOMAIN train IN
  IF ~e.trok THEN "training record is not readable"
  ELSE IF \E n \in DOMAIN train : n \notin DOMAIN t \/
            (n \in DOMAIN t /\ t[n].cfg # train[n].cfg)
  THEN "an earlier training entry is lost or altered"
  ELSE IF \E n \in DOMAIN train : n < Max(DOMAIN t) /\ n < Max(DOMAIN train)
            /\ t[n].steps # train[n].steps
  THEN "steps of an earlier training entry changed"
  ELSE IF Cardinality(new) > (IF e.start THEN 1 ELSE 0)
       \/ (\E n \in new : n < Max(DOMAIN train) \/ t[n].cfg # e.cfg)
  THEN "wrong new training entry"
  ELSE IF complete /\ e.start /\ new = {} THEN "training start not recorded"
  ELSE ""

CkptClause(e) ==
  IF e.latest = -1 \/ \E n \in DOMAIN e.loads : e.loads[n] = -1
  THEN "a checkpoint restores mixed weights"
  ELSE IF e.op = "save" THEN
       IF e.failed THEN "saving is refused after an interrupted save"
       ELSE IF Cardinality(NewNums(e)) # 1 THEN "no new higher checkpoint number"
       ELSE LET n == Max(NewNums(e)) IN
            IF e.loads[n] # e.w \/ e.latest # e.w
            THEN "the saved checkpoint does not restore its weights"
            ELSE IF Loadable(e) # DOMAIN Kept(known, n, e)
            THEN "wrong set of checkpoints kept"
            ELSE IF \E m \in Loadable(e) : e.loads[m] # Kept(known, n, e)[m].w
            THEN "a number restores the weights of another checkpoint"
            ELSE ""
  ELSE \* interrupted
       IF lastw # 0 /\ e.latest \notin {lastw, e.w}
       THEN "after a crash neither the previous nor the new checkpoint can be loaded"
       ELSE IF lastw = 0 /\ e.latest \notin {0, e.w}
       THEN "after a crash wrong weights are loaded"
       ELSE IF \E n \in Prot(known) : e.loads[n] # known[n].w
       THEN "after a crash a protected checkpoint cannot be loaded"
       ELSE IF \E n \in Loadable(e) : IF n \in DOMAIN known
                                      THEN e.loads[n] # known[n].w
                                      ELSE n < Max(DOMAIN known) \/ e.loads[n] # e.w
       THEN "after a crash a number restores the weights of another checkpoint"
       ELSE IF Cardinality(NewNums(e)) > 1 THEN "two new checkpoints"
       ELSE IF e.latest # 0 /\ e.latest # e.loads[Max(Loadable(e))]
       THEN "the latest checkpoint is not the newest one"
       ELSE ""

Step ==
  /\ verdict = ""
  /\ IF l > Len(Run.steps)
     THEN verdict' = "ok" /\ UNCHANGED <<known, lastw, train>>
     ELSE LET e == Run.steps[l]
              c == CkptClause(e)
              t == TrainClause(e, e.op = "save")
          IN /\ verdict' = IF c # "" THEN c ELSE t
             /\ IF verdict' # "" THEN UNCHANGED <<known, lastw, train>>
                ELSE /\ known' =
                          IF e.op = "save" THEN Kept(known, Max(NewNums(e)), e)
                          ELSE [n \in Loadable(e) |->
                                 IF n \in DOMAIN known THEN known[n]
                                 ELSE [w |-> e.w, prot |-> e.prot]]
                     /\ lastw' = e.latest
                     /\ train' = TrainOf(e)
  /\ l' = l + 1
  /\ UNCHANGED tid
  /\ verdict' = "" \/ PrintT(ToJson([tid |-> tid, l |-> l,
                                     verdict |-> verdict']))
TSpec == Init /\ [][Step]_vars
=============================================================================
