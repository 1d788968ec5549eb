------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The multiprocessing pipeline behind the batch generator: loader         *)
(* processes take files from a list, load them and put their events on a   *)
(* bounded queue; one batching process takes groups of files off that      *)
(* queue and puts batches on a second bounded queue; the consumer takes    *)
(* batches off it and has to find out when the iteration is over.          *)
(* One action per access to shared state.                                  *)
(*                                                                         *)
(* Kind[f]: number of events of file f; -1: missing or skipped file.       *)
(* Forever: files are picked at random without end.                        *)
(* Protocol = "fixed": the protocol as implemented now.                    *)
(* Protocol = "legacy": the one before the repairs (see DESIGN.md), used   *)
(* to make sure that the properties below can fail.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NWorkers, Kind, BatchSize, Reps, NumAdd, FileCap, BatchCap,
          Forever, Protocol

NFiles  == Len(Kind)
Files   == 1..NFiles
Workers == 1..NWorkers
Legacy  == Protocol = "legacy"
Readable == {f \in Files : Kind[f] >= 0}
Events  == {<<f, e>> : f \in Files, e \in 1..3} \cap
           UNION {{<<f, e>> : e \in 1..Kind[f]} : f \in Readable}
FileEvents(f) == [e \in 1..Kind[f] |-> <<f, e>>]

VARIABLES
  flist,      \* file list queue (single pass)
  nproc,      \* number of files processed
  procAll,    \* shared flag: all files have been processed
  dataLeft,   \* shared flag: the batcher may still put batches
  dq, fq,     \* the two queues
  wpc, wfile, \* loaders
  bpc, bdone, group, ngroup, todo, buf,   \* batcher
  cpc, cleft, \* consumer
  ahead,      \* files loaded or being loaded, but not completely used yet
  taken,      \* parity of the number of batches consumed (endless mode)
  rem, short, ended     \* what the consumer observed (contract variables)

vars == <<flist, nproc, procAll, dataLeft, dq, fq, wpc, wfile, bpc, bdone,
          group, ngroup, todo, buf, cpc, cleft, ahead, taken,
          rem, short, ended>>
wvars == <<wpc, wfile>>
bvars == <<bpc, bdone, group, ngroup, todo, buf>>
cvars == <<cpc, cleft, rem, short, ended, taken>>

Init ==
  /\ flist = [i \in Files |-> i]
  /\ nproc = 0
  /\ procAll = (~Forever /\ NFiles = 0 /\ ~Legacy)
  /\ dataLeft = TRUE
  /\ dq = <<>> /\ fq = <<>>
  /\ wpc = [w \in Workers |-> "test"] /\ wfile = [w \in Workers |-> 0]
  /\ bpc = "read" /\ bdone = FALSE /\ group = <<>> /\ ngroup = 0
  /\ todo = <<>> /\ buf = <<>>
  /\ cpc = "read" /\ cleft = TRUE
  /\ ahead = 0 /\ taken = 0
  /\ rem = [e \in Events |-> IF Forever THEN 0 ELSE Reps]
  /\ short = FALSE /\ ended = FALSE

-----------------------------------------------------------------------------
(* loaders *)
WTest(w) ==
  /\ wpc[w] = "test"
  /\ wpc' = [wpc EXCEPT ![w] = IF procAll THEN "exit" ELSE "pick"]
  /\ UNCHANGED <<flist, nproc, procAll, dataLeft, dq, fq, wfile, ahead>>
  /\ UNCHANGED bvars /\ UNCHANGED cvars

WPick(w) ==
  /\ wpc[w] = "pick"
  /\ IF Forever
     THEN /\ \E f \in Files :
               /\ wfile' = [wfile EXCEPT ![w] = f]
               /\ wpc' = [wpc EXCEPT ![w] = IF Kind[f] >= 0 THEN "put" ELSE "test"]
               /\ ahead' = IF Kind[f] >= 0 THEN ahead + 1 ELSE ahead
               /\ UNCHANGED flist
     ELSE IF flist # <<>>
          THEN /\ wfile' = [wfile EXCEPT ![w] = Head(flist)]
               /\ flist' = Tail(flist)
               /\ wpc' = [wpc EXCEPT ![w] =
                            IF Kind[Head(flist)] >= 0 THEN "put" ELSE "count"]
               /\ ahead' = IF Kind[Head(flist)] >= 0 THEN ahead + 1 ELSE ahead
          ELSE /\ wpc' = [wpc EXCEPT ![w] = IF Legacy THEN "count" ELSE "exit"]
               /\ UNCHANGED <<flist, wfile, ahead>>
  /\ UNCHANGED <<nproc, procAll, dataLeft, dq, fq>>
  /\ UNCHANGED bvars /\ UNCHANGED cvars

WPut(w) ==
  /\ wpc[w] = "put"
  /\ Len(dq) < FileCap
  /\ dq' = Append(dq, wfile[w])
  /\ wpc' = [wpc EXCEPT ![w] = IF Forever THEN "test" ELSE "count"]
  /\ UNCHANGED <<flist, nproc, procAll, dataLeft, fq, wfile, ahead>>
  /\ UNCHANGED bvars /\ UNCHANGED cvars

WCount(w) ==   \* under the file counter lock
  /\ wpc[w] = "count"
  /\ nproc' = IF nproc <= NFiles THEN nproc + 1 ELSE nproc
  /\ procAll' = (procAll \/ nproc + 1 = NFiles)
  /\ wpc' = [wpc EXCEPT ![w] = "test"]
  /\ UNCHANGED <<flist, dataLeft, dq, fq, wfile, ahead>>
  /\ UNCHANGED bvars /\ UNCHANGED cvars

-----------------------------------------------------------------------------
(* batcher *)
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)

BRead ==
  /\ bpc = "read"
  /\ bdone' = procAll
  /\ bpc' = "get"
  /\ UNCHANGED <<group, ngroup, todo, buf, flist, nproc, procAll,
                 dataLeft, dq, fq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BGet ==
  /\ bpc = "get" /\ ~Legacy
  /\ \/ /\ dq # <<>>
        /\ dq' = Tail(dq)
        /\ group' = group \o FileEvents(Head(dq))
        /\ ngroup' = ngroup + 1
        /\ bpc' = IF ngroup' < 1 + NumAdd THEN "read" ELSE "start"
        /\ UNCHANGED bdone
     \/ /\ dq = <<>> /\ ~bdone        \* time out, try again
        /\ bpc' = "read"
        /\ UNCHANGED <<dq, group, ngroup, bdone>>
     \/ /\ dq = <<>> /\ bdone         \* no more files
        /\ bpc' = IF ngroup > 0 THEN "start" ELSE "flush"
        /\ UNCHANGED <<dq, group, ngroup, bdone>>
  /\ UNCHANGED <<todo, buf, flist, nproc, procAll, dataLeft, fq,
                 ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

\* the legacy protocol blocks on the queue and tests the flags afterwards
BGetLegacy ==
  /\ bpc = "get" /\ Legacy /\ dataLeft
  /\ dq # <<>>
  /\ dq' = Tail(dq)
  /\ group' = group \o FileEvents(Head(dq))
  /\ ngroup' = ngroup + 1
  /\ bpc' = IF ngroup' < 1 + NumAdd THEN "get" ELSE "start"
  /\ UNCHANGED <<bdone, todo, buf, flist, nproc, procAll, dataLeft,
                 fq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BStart ==
  /\ bpc = "start"
  /\ todo' = Rep(group, Reps)
  /\ bpc' = "emit"
  /\ UNCHANGED <<bdone, group, ngroup, buf, flist, nproc, procAll,
                 dataLeft, dq, fq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BEmit ==     \* add events to the batch; put it when it is full
  /\ bpc = "emit"
  /\ LET room == BatchSize - Len(buf)
         n    == IF Len(todo) < room THEN Len(todo) ELSE room
         b    == buf \o SubSeq(todo, 1, n)
     IN IF todo = <<>>
        THEN /\ ahead' = ahead - ngroup
             /\ group' = <<>> /\ ngroup' = 0
             /\ bpc' = IF Legacy THEN "over" ELSE "read"
             /\ UNCHANGED <<todo, buf, fq>>
        ELSE /\ todo' = SubSeq(todo, n + 1, Len(todo))
             /\ IF Len(b) = BatchSize
                THEN /\ Len(fq) < BatchCap
                     /\ fq' = Append(fq, b)
                     /\ buf' = <<>>
                ELSE /\ buf' = b
                     /\ UNCHANGED fq
             /\ UNCHANGED <<group, ngroup, ahead, bpc>>
  /\ UNCHANGED <<bdone, flist, nproc, procAll, dataLeft, dq>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BOverLegacy ==
  /\ bpc = "over"
  /\ dataLeft' = ~(procAll /\ dq = <<>> /\ ~Forever)
  /\ bpc' = IF dataLeft' THEN "get" ELSE "flush"
  /\ UNCHANGED <<bdone, group, ngroup, todo, buf, flist, nproc,
                 procAll, dq, fq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BFlush ==
  /\ bpc = "flush"
  /\ IF buf # <<>>
     THEN /\ Len(fq) < BatchCap
          /\ fq' = Append(fq, buf)
          /\ buf' = <<>>
     ELSE UNCHANGED <<fq, buf>>
  /\ bpc' = "done"
  /\ UNCHANGED <<bdone, group, ngroup, todo, flist, nproc, procAll,
                 dataLeft, dq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

BDone ==
  /\ bpc = "done"
  /\ dataLeft' = FALSE
  /\ bpc' = "exit"
  /\ UNCHANGED <<bdone, group, ngroup, todo, buf, flist, nproc,
                 procAll, dq, fq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED cvars

-----------------------------------------------------------------------------
(* consumer *)
Occ(b, e) == Cardinality({i \in DOMAIN b : b[i] = e})

CRead ==
  /\ cpc = "read"
  /\ cleft' = IF Legacy THEN (dataLeft \/ fq # <<>>) ELSE dataLeft
  /\ cpc' = IF Legacy /\ ~cleft' THEN "end" ELSE "get"
  /\ ended' = (Legacy /\ ~cleft')
  /\ UNCHANGED <<rem, short, taken, flist, nproc, procAll, dataLeft, dq, fq,
                 ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED bvars

CGet ==
  /\ cpc = "get"
  /\ \/ /\ fq # <<>>
        /\ fq' = Tail(fq)
        /\ rem' = [e \in Events |-> IF Forever THEN 0
                                    ELSE rem[e] - Occ(Head(fq), e)]
        /\ short' = (Len(Head(fq)) < BatchSize)
        /\ taken' = IF Forever THEN 1 - taken ELSE taken
        /\ cpc' = "read"
        /\ UNCHANGED <<cleft, ended>>
     \/ /\ fq = <<>> /\ ~Legacy /\ cleft
        /\ cpc' = "read"
        /\ UNCHANGED <<fq, rem, short, taken, cleft, ended>>
     \/ /\ fq = <<>> /\ ~Legacy /\ ~cleft
        /\ cpc' = "end" /\ ended' = TRUE
        /\ UNCHANGED <<fq, rem, short, taken, cleft>>
  /\ UNCHANGED <<flist, nproc, procAll, dataLeft, dq, ahead>>
  /\ UNCHANGED wvars /\ UNCHANGED bvars

Worker(w) == WTest(w) \/ WPick(w) \/ WPut(w) \/ WCount(w)
Batcher   == BRead \/ BGet \/ BGetLegacy \/ BStart \/ BEmit \/ BOverLegacy
             \/ BFlush \/ BDone
Consumer  == CRead \/ CGet
Terminated == /\ cpc = "end" /\ bpc = "exit"
              /\ \A w \in Workers : wpc[w] = "exit"
              /\ UNCHANGED vars

Next == (\E w \in Workers : Worker(w)) \/ Batcher \/ Consumer \/ Terminated

Fairness == /\ \A w \in Workers : WF_vars(Worker(w))
            /\ WF_vars(Batcher) /\ WF_vars(Consumer)
Spec == Init /\ [][Next]_vars /\ Fairness

-----------------------------------------------------------------------------
(* properties *)
TypeOK == /\ Len(dq) <= FileCap /\ Len(fq) <= BatchCap
          /\ \A e \in Events : rem[e] \in 0..Reps

Contract == INSTANCE BatchContract
ContractSpec == Contract!CSpec     \* P01, safety

Ends == <>ended                    \* P01, termination
LoadersStop == <>(\A w \in Workers : wpc[w] = "exit")

\* P03: a loader waits instead of loading ahead without limit
InHands == Cardinality({w \in Workers : wpc[w] = "put"})
AheadBound == ahead <= FileCap + NWorkers + 1 + NumAdd
BatchesBound == Len(fq) <= BatchCap
NeverEnds == Forever => ~ended
FullBatches == Forever => \A i \in DOMAIN fq : Len(fq[i]) = BatchSize
Progress == []<>(taken = 0) /\ []<>(taken = 1)
Inv == TypeOK /\ AheadBound /\ BatchesBound /\ NeverEnds /\ FullBatches
=============================================================================
