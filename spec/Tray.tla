---------------------------------- MODULE Tray ---------------------------------
(* Chains of reconstruction modules
   (egenerator/manager/reconstruction/tray.py, SelectBestReconstruction).

   Modules are added under a name of their own (or a default name) and run in
   this order whenever the chain is executed.  A module may have functions
   built for it, which are shared if name and settings agree.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Simulated

VARIABLES mods,    \* added modules
          cache,   \* functions that exist: <<name, settings>>
          loss,    \* loss of the work of kind w for batch b: loss[w][b]
          hist     \* what was done and what came out of it
vars == <<mods, cache, loss, hist>>

NaN == 1000
Inf == 999
Works == 1..4
Batches == 1..2
Names == {"a", "b", "c", "module_0001"}
Default == <<"module_0000", "module_0001", "module_0002", "module_0003",
             "module_0004", "module_0005", "module_0006", "module_0007",
             "module_0008">>
NameOf(n) == IF n = "" THEN Default[Len(mods) + 1] ELSE n
Used == {mods[i].name : i \in DOMAIN mods}
Functions == {"f", "g"} \X (1..3)

----------------------------------------------------------------------------
(* the results of a module: losses together with the works they may be from *)
Best(rs) ==
  LET finite == {i \in DOMAIN rs : rs[i].loss < Inf}
      m == CHOOSE x \in {rs[i].loss : i \in finite} :
             \A i \in finite : x <= rs[i].loss
      win == IF finite = {} THEN DOMAIN rs
             ELSE {i \in finite : rs[i].loss = m}
  IN [loss |-> IF finite = {} THEN rs[Len(rs)].loss ELSE m,
      from |-> UNION {rs[i].from : i \in win}]
Position(ns, n) == CHOOSE i \in DOMAIN ns : ns[i] = n

\* outcome of the first k modules: results, or the module that fails
RECURSIVE Outcome(_, _)
Outcome(k, b) ==
  IF k = 0 THEN [ok |-> TRUE, res |-> <<>>]
  ELSE LET before == Outcome(k - 1, b)
           m == mods[k]
           names == [i \in 1..(k - 1) |-> mods[i].name]
           fail == [ok |-> FALSE, at |-> k, res |-> before.res]
       IN IF ~before.ok THEN before
          ELSE CASE m.kind = "work" ->
                      [ok |-> TRUE, res |-> Append(before.res,
                         [loss |-> loss[m.work][b], from |-> {k}])]
                 [] m.kind = "select" ->
                      IF \A i \in DOMAIN m.of : m.of[i] \in
                           {names[j] : j \in DOMAIN names}
                      THEN [ok |-> TRUE, res |-> Append(before.res,
                              Best([i \in DOMAIN m.of |->
                                before.res[Position(names, m.of[i])]]))]
                      ELSE fail
                 [] m.kind = "late" ->     \* fails for the second batch
                      IF b = 2 THEN fail
                      ELSE [ok |-> TRUE, res |-> Append(before.res,
                              [loss |-> 5, from |-> {k}])]
                 [] OTHER -> fail          \* claims the name of the run time

Record(x) == hist' = Append(hist, x)
Add(n, m) ==
  LET name == NameOf(n)
      ok == name \notin Used /\ m.kind # "broken"
      wanted == IF m.kind = "work" THEN m.funs ELSE {}
      new == [name |-> name] @@ m
  IN /\ IF ok
        THEN /\ mods' = Append(mods, new)
             /\ cache' = cache \cup wanted
        ELSE UNCHANGED <<mods, cache>>
     /\ Record([op |-> "add", given |-> n, mod |-> m, ok |-> ok,
                name |-> name,
                shared |-> IF ok THEN wanted \cap cache ELSE {}])
     /\ UNCHANGED loss
Exec(b) ==
  /\ Record([op |-> "exec", batch |-> b, out |-> Outcome(Len(mods), b),
             names |-> [i \in DOMAIN mods |-> mods[i].name]])
  /\ UNCHANGED <<mods, cache, loss>>

----------------------------------------------------------------------------
(* Properties *)
UniqueNames == Cardinality(Used) = Len(mods)
\* the number of results and of modules agree, results stay what they were
AllRun ==
  \A b \in Batches :
    LET o == Outcome(Len(mods), b)
    IN o.ok => /\ Len(o.res) = Len(mods)
               /\ \A k \in DOMAIN mods : \A i \in 1..k :
                    Outcome(k, b).res[i] = o.res[i]
\* nothing that was listed is better than the selection, which is one of them
Lowest ==
  \A b \in Batches : \A k \in DOMAIN mods :
    LET o == Outcome(k, b)
        names == [i \in DOMAIN mods |-> mods[i].name]
    IN (o.ok /\ mods[k].kind = "select") =>
         LET r(i) == o.res[Position(names, mods[k].of[i])]
         IN /\ \E i \in DOMAIN mods[k].of : r(i).loss < Inf =>
                  \A j \in DOMAIN mods[k].of :
                    r(j).loss < Inf => o.res[k].loss <= r(j).loss
            /\ \E i \in DOMAIN mods[k].of : r(i).loss = o.res[k].loss
            /\ \A x \in o.res[k].from :
                 \E i \in DOMAIN mods[k].of : x \in r(i).from
\* a refused module changes nothing
Refused ==
  [][(hist' # hist /\ hist'[Len(hist')].op = "add") =>
       IF hist'[Len(hist')].ok THEN Len(mods') = Len(mods) + 1
       ELSE mods' = mods /\ cache' = cache]_vars
\* executing changes neither the modules nor the functions
Repeatable ==
  [][(hist' # hist /\ hist'[Len(hist')].op = "exec") =>
       mods' = mods /\ cache' = cache]_vars

----------------------------------------------------------------------------
R(S) == RandomElement(S)
SomeMod ==
  LET k == TLCEval(R(1..10))
  IN IF k < 6
     THEN [kind |-> "work", work |-> R(Works),
           funs |-> TLCEval(R(SUBSET Functions))]
     ELSE IF k < 9
     THEN [kind |-> "select",
           of |-> TLCEval([i \in 1..TLCEval(R(1..3)) |->
                    IF Used = {} \/ R(1..12) = 1 THEN R(Names)
                    ELSE R(Used)])]
     ELSE [kind |-> IF k = 9 THEN R({"late", "broken"})
                    ELSE R({"runtime", "late", "work2"})]
Fix(m) == IF m.kind = "work2" THEN [kind |-> "work", work |-> 1, funs |-> {}]
          ELSE m
Init ==
  /\ mods = <<>> /\ cache = {} /\ hist = <<>>
  /\ loss = IF Simulated THEN <<>>
            ELSE << <<1, 2>>, <<2, 1>>, <<NaN, 0>>, <<Inf, 3>> >>
NextRandom ==
  IF loss = <<>>
  THEN /\ \E l \in {TLCEval([w \in Works |-> TLCEval([b \in Batches |->
               LET x == TLCEval(R(-4..8))
               IN IF x = 8 THEN -Inf ELSE IF x = 7 THEN NaN
                  ELSE IF x = 6 THEN Inf ELSE x])])} :
            loss' = l
       /\ UNCHANGED <<mods, cache, hist>>
  ELSE \/ /\ Len(hist) < MaxOps /\ Len(mods) < 8
          /\ \E n \in {IF R(1..2) = 1 THEN "" ELSE R(Names)} :
             \E m \in {Fix(TLCEval(SomeMod))} : Add(n, m)
       \/ /\ Len(hist) < MaxOps
          /\ \E b \in {R(Batches)} : Exec(b)
SmallMods ==
  {[kind |-> "work", work |-> w, funs |-> f] :
     w \in {1, 3}, f \in {{}, {<<"f", 1>>}}} \cup
  {[kind |-> k] : k \in {"late", "broken"}} \cup
  {[kind |-> "select", of |-> o] : o \in {<<"a">>, <<"a", "b">>, <<"b", "a">>}}
NextSmall ==
  /\ Len(hist) < MaxOps
  /\ \/ \E n \in {"", "a", "b"} : \E m \in SmallMods : Add(n, m)
     \/ /\ Len(hist) = MaxOps - 1 /\ \E b \in Batches : Exec(b)
Next == IF Simulated THEN NextRandom ELSE NextSmall
Spec == Init /\ [][Next]_vars
Emit == (Len(hist) = MaxOps /\ (Simulated \/ hist[Len(hist)].op = "exec")) =>
          PrintT(ToJson([loss |-> loss, hist |-> hist]))
================================================================================
