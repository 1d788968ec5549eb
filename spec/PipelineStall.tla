---------------------------- MODULE PipelineStall ----------------------------
(* Pipeline with a consumer that stops after Stop batches; binds the bound   *)
(* on loaded files used for recorded runs to the pipeline model.             *)
EXTENDS Pipeline, PipelineBounds
CONSTANTS Stop
VARIABLES loads, got
SVars == <<vars, loads, got>>
SInit == Init /\ loads = 0 /\ got = 0
SNext ==
  /\ Next
  /\ cpc = "get" /\ Len(fq') < Len(fq) => got < Stop
  /\ loads' = loads + Cardinality({w \in Workers :
                         wpc[w] = "pick" /\ wpc'[w] = "put"})
  /\ got' = IF cpc = "get" /\ Len(fq') < Len(fq) THEN got + 1 ELSE got
SSpec == SInit /\ [][SNext]_SVars
Bounded == loads <= LoadBound(got, Kind[1], BatchSize, Reps, NumAdd,
                              FileCap, BatchCap, NWorkers)
\* the bound is reached: it cannot be lowered
NotReached == loads < LoadBound(Stop, Kind[1], BatchSize, Reps, NumAdd,
                              FileCap, BatchCap, NWorkers)
=============================================================================
