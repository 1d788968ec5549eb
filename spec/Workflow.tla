-------------------------------- MODULE Workflow --------------------------------
(* From configuration files to the models that are used: the scripts
   create_trafo_model, train_model, export_manager and reconstruct_test_data, and
   the ManagerConfigurator that loads exported models.

   A configuration file names a directory for the normalisation, a directory for
   the model, its data (kind), the parameters (order), its initial weight, its
   loss (a list of scales), whether an existing model is to be continued, and
   whether reconstructions are to read the data its own way.

   A normalisation is the content it was made from: a number and the kind of
   data.  A model is its order of parameters, its normalisation and its weight;
   n steps of training with the slope g and a loss with the scales s change the
   weight by - n * g * Sum(s).

   A model may also be the sum of other models.  Each of these starts from its
   own weight, with the normalisation of the sum or one of its own, or is a copy
   of a model that is stored elsewhere.  Training changes them all.

   Commands ask before they delete something.  Only "yes" lets them do so.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumCfg, NumTrafo, NumDir, NumOut, MaxOps, Small

VARIABLES cfgs, trafo, man, exp, hist, phase
vars == <<cfgs, trafo, man, exp, hist, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

NoTrafo == [content |-> 0, kind |-> 0]
NoMan == <<>>
NoExp == [models |-> <<>>, rc |-> 0]

Same(ms) == \A i, j \in DOMAIN ms : ms[i].order = ms[j].order
                                    /\ ms[i].trafo = ms[j].trafo
Kind(ms) == ms[1].trafo.kind
Log(op, out, res) == hist' = Append(hist, [op |-> op, out |-> out, res |-> res])
Room == phase = "run" /\ Len(hist) < MaxOps

----------------------------------------------------------------------------
(* create_trafo_model                                                        *)
MakeTrafo(c, content, yes) ==
  LET t == cfgs[c].trafo
      op == [do |-> "trafo", c |-> c, content |-> content, yes |-> yes]
  IN /\ Room /\ UNCHANGED <<cfgs, man, exp, phase>>
     /\ IF trafo[t] # NoTrafo /\ ~yes
        THEN UNCHANGED trafo /\ Log(op, "aborted", <<>>)
        ELSE /\ trafo' = [trafo EXCEPT ![t] = [content |-> content,
                                               kind |-> cfgs[c].kind]]
             /\ Log(op, "ok", <<>>)

(* train_model                                                               *)
RECURSIVE Moved(_, _)
Moved(m, by) ==
  IF m.bases = <<>> THEN [m EXCEPT !.w = @ - by]
  ELSE [m EXCEPT !.bases = [i \in DOMAIN m.bases |-> Moved(m.bases[i], by)]]
Trained(m, n, g, c) ==
  <<[Moved(m, n * g * Sum(cfgs[c].loss)) EXCEPT !.steps = @ + n]>>
(* the models a model is the sum of; d is the directory it will be stored in *)
Base(b, x, d) ==
  IF b.load # 0
  THEN IF b.load = d \/ man[b.load] = NoMan THEN NoMan
       ELSE IF (man[b.load][1].bases # <<>>) # b.sum THEN NoMan \* other class
       ELSE man[b.load]
  ELSE LET t == IF b.trafo = 0 THEN x.trafo ELSE b.trafo
       IN IF trafo[t] = NoTrafo THEN NoMan
          ELSE <<[order |-> x.order, trafo |-> trafo[t], w |-> b.w0,
                  steps |-> 0, bases |-> <<>>]>>
Bases(x, d) == [i \in DOMAIN x.bases |-> Base(x.bases[i], x, d)]
Train(c, n, g, yes) ==
  LET x == cfgs[c]
      d == x.dir
      op == [do |-> "train", c |-> c, n |-> n, g |-> g, yes |-> yes]
      bases == Bases(x, d)
      new == [order |-> x.order, trafo |-> trafo[x.trafo],
              w |-> IF bases = <<>> THEN x.w0 ELSE 0, steps |-> 0,
              bases |-> [i \in DOMAIN bases |-> bases[i][1]]]
  IN /\ Room /\ UNCHANGED <<cfgs, trafo, exp, phase>>
     /\ IF man[d] # NoMan /\ x.restore
        THEN LET m == Trained(man[d][1], n, g, c)
             IN man' = [man EXCEPT ![d] = m] /\ Log(op, "ok", m)
        ELSE IF man[d] # NoMan /\ ~yes
        THEN UNCHANGED man /\ Log(op, "aborted", <<>>)
        ELSE IF \/ trafo[x.trafo].kind # x.kind    \* none, or for other data
                \/ \E i \in DOMAIN bases : bases[i] = NoMan
        THEN man' = [man EXCEPT ![d] = NoMan] /\ Log(op, "failed", <<>>)
        ELSE LET m == Trained(new, n, g, c)
             IN man' = [man EXCEPT ![d] = m] /\ Log(op, "ok", m)

(* export_manager: an ensemble of the models of all files                    *)
Models(cs) == Flat([i \in DOMAIN cs |-> man[cfgs[cs[i]].dir]])
Complete(cs) == \A i \in DOMAIN cs : man[cfgs[cs[i]].dir] # NoMan
Export(cs, rc, o, yes) ==
  LET op == [do |-> "export", cs |-> cs, rc |-> rc, o |-> o, yes |-> yes]
      r == IF rc = 0 THEN cs[1] ELSE rc
  IN /\ Room /\ UNCHANGED <<cfgs, trafo, man, phase>>
     /\ IF exp[o] # NoExp /\ ~yes
        THEN UNCHANGED exp /\ Log(op, "aborted", <<>>)
        ELSE IF ~Complete(cs) \/ ~Same(Models(cs))
        THEN exp' = [exp EXCEPT ![o] = NoExp] /\ Log(op, "failed", <<>>)
        ELSE /\ exp' = [exp EXCEPT ![o] = [models |-> Models(cs), rc |-> r]]
             /\ Log(op, "ok", Models(cs))

(* ManagerConfigurator: the models of all exports together, with the loss of
   one of them                                                               *)
Use(os, rc, data) ==
  LET ms == Flat([i \in DOMAIN os |-> exp[os[i]].models])
      op == [do |-> "use", os |-> os, rc |-> rc, data |-> data]
      r == IF rc = 0 THEN os[1] ELSE rc
  IN /\ Room /\ UNCHANGED <<cfgs, trafo, man, exp, phase>>
     /\ IF (\E i \in DOMAIN os : exp[os[i]] = NoExp) \/ exp[r] = NoExp
           \/ ~Same(ms) \/ (data /\ Kind(ms) # cfgs[exp[r].rc].kind)
        THEN Log(op, "failed", <<>>)
        ELSE Log([op EXCEPT !.rc = r] @@ [loss |-> cfgs[exp[r].rc].loss],
                 "ok", ms)

(* reconstruct_test_data: the same without an export                         *)
Reconstruct(cs, rc) ==
  LET op == [do |-> "reconstruct", cs |-> cs, rc |-> rc]
      r == IF rc = 0 THEN cs[1] ELSE rc
  IN /\ Room /\ UNCHANGED <<cfgs, trafo, man, exp, phase>>
     /\ IF ~Complete(cs) \/ ~Same(Models(cs))
           \/ (cfgs[r].restore /\ man[cfgs[r].dir] = NoMan)
           \/ (cfgs[r].data /\ Kind(Models(cs)) # cfgs[r].kind)
        THEN Log(op, "failed", <<>>)
        ELSE Log(op @@ [loss |-> cfgs[r].loss], "ok", Models(cs))

End == phase = "run" /\ Len(hist) = MaxOps /\ phase' = "done"
       /\ UNCHANGED <<cfgs, trafo, man, exp, hist>>

----------------------------------------------------------------------------
R(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> R(S)])

RBases(n, k) == TLCEval([i \in 1..n |->
  LET t == R(1..3)
  IN [load |-> IF t > 1 THEN 0
               ELSE IF R(1..3) = 1 THEN R(1..NumDir) ELSE 1 + (k % NumDir),
      trafo |-> IF R(1..3) = 1 THEN R(1..NumTrafo) ELSE 0,
      sum |-> R(1..4) = 1, w0 |-> 1000 * k + i]])
RandomCfg(k) == [trafo |-> IF R(1..2) = 1 THEN 1 ELSE R(1..NumTrafo), dir |-> IF R(1..4) = 1
                   THEN R(1..NumDir) ELSE k,
                 kind |-> IF R(1..10) = 1 THEN 2 ELSE 1,
                 order |-> IF R(1..6) = 1 THEN 2 ELSE 1,
                 w0 |-> 100 * k, loss |-> RSeq(R(1..3), 1..3),
                 restore |-> R(1..2) = 1, data |-> R(1..3) = 1,
                 bases |-> IF R(1..5) > 2 THEN <<>>
                           ELSE RBases(R(1..3), k)]
Empty == /\ trafo = [t \in 1..NumTrafo |-> NoTrafo]
         /\ man = [d \in 1..NumDir |-> NoMan]
         /\ exp = [o \in 1..NumOut |-> NoExp] /\ hist = <<>>
SmallCfg == {<<[trafo |-> 1, dir |-> 1, kind |-> 1, order |-> 1, w0 |-> 5,
                loss |-> <<1, 2>>, restore |-> a, data |-> FALSE, bases |-> <<>>],
               [trafo |-> t, dir |-> d, kind |-> 1, order |-> o, w0 |-> 7,
                loss |-> <<2>>, restore |-> b, data |-> TRUE, bases |-> s]>> :
             a \in BOOLEAN, b \in BOOLEAN, t \in 1..2, d \in 1..2, o \in 1..2,
             s \in {<<>>, <<[load |-> 1, trafo |-> 0, sum |-> FALSE, w0 |-> 0],
                            [load |-> 0, trafo |-> 2, sum |-> FALSE, w0 |-> 9]>>}}
Init == /\ Empty
        /\ IF Small THEN cfgs \in SmallCfg /\ phase = "run"
                    ELSE cfgs = <<>> /\ phase = "setup"
Setup == /\ phase = "setup" /\ phase' = "run"
         /\ cfgs' = TLCEval([k \in 1..NumCfg |-> RandomCfg(k + Len(hist))])
         /\ UNCHANGED <<trafo, man, exp, hist>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
NextSmall == LET C == 1..Len(cfgs) IN
  \/ \E c \in C : \E v \in 1..2 : \E y \in BOOLEAN : MakeTrafo(c, v, y)
  \/ \E c \in C : \E y \in BOOLEAN : Train(c, 1, 2, y)
  \/ \E cs \in Seqs(C, 2) : \E y \in BOOLEAN : Export(cs, 0, 1, y)
  \/ Use(<<1>>, 0, FALSE) \/ \E cs \in Seqs(C, 2) : Reconstruct(cs, 0)
  \/ End

(* operations that make sense are preferred                                  *)
Ready == {c \in 1..Len(cfgs) : man[cfgs[c].dir] # NoMan}
Filled == {o \in 1..NumOut : exp[o] # NoExp}
Prefer(S, T) == IF S # {} /\ R(1..6) > 1 THEN S ELSE T
(* the largest set of files with compatible models, now and then any         *)
Alike(c) == {k \in Ready : Same(Models(<<c, k>>))}
Partners(S) == {c \in S : Alike(c) # {c}}
(* models that differ in their normalisation only                            *)
Unlike(c) == {k \in Ready : /\ man[cfgs[k].dir][1].order = man[cfgs[c].dir][1].order
                            /\ man[cfgs[k].dir][1].trafo.kind
                                 = man[cfgs[c].dir][1].trafo.kind}
Pool == LET k == R(1..8)
            mixed == {c \in Ready : Unlike(c) \ Alike(c) # {}}
        IN CASE k = 1 -> 1..Len(cfgs)
           [] k = 2 /\ Ready # {} -> Ready
           [] k \in 3..4 /\ mixed # {} -> Unlike(R(mixed))
           [] k > 2 /\ Ready # {} -> Alike(R(Prefer(Partners(Ready), Ready)))
           [] OTHER -> 1..Len(cfgs)
AlikeOut(c) == {o \in Filled : Same(exp[c].models \o exp[o].models)}
PoolOut == LET c == R(Prefer({o \in Filled : AlikeOut(o) # {o}},
                             Prefer(Filled, 1..NumOut)))
           IN IF c \notin Filled \/ R(1..10) = 1 THEN 1..NumOut
              ELSE IF R(1..4) = 1 THEN Filled ELSE AlikeOut(c)
(* few normalisations once there is one                                      *)
(* files whose normalisation does not exist                                  *)
Missing == {c \in 1..Len(cfgs) : trafo[cfgs[c].trafo] = NoTrafo}
Step == IF \A t \in DOMAIN trafo : trafo[t] = NoTrafo
         THEN IF R(1..8) = 1 THEN R(1..14) ELSE 1
         ELSE IF Len(hist) < 5 THEN IF R(1..4) = 1 \/ (Len(hist) < 3 /\ Missing # {})
                                   THEN 1 ELSE 2
         ELSE R(1..15)
NextRandom ==
  \/ Setup
  \/ phase = "run" /\ \E k \in {Step} :
     \/ k \in {1, 15} /\ \E c \in {R(Prefer(Missing, 1..Len(cfgs)))} :
          \E v \in {1 + Len(hist)} :
          \E y \in {R(BOOLEAN)} : MakeTrafo(c, v, y)
     \/ k \in 2..5 /\ \E c \in {R(Prefer({c \in 1..Len(cfgs) :
              trafo[cfgs[c].trafo].kind = cfgs[c].kind}, 1..Len(cfgs)))} :
          \E n \in {R(1..3)} : \E g \in {R(-2..2)} : \E y \in {R(BOOLEAN)} :
            Train(c, n, g, y)
     \/ k \in 6..9 /\ \E P \in {Pool} : \E cs \in {RSeq(R(1..4), P)} :
          \E rc \in {IF R(1..2) = 1 THEN 0 ELSE R(1..Len(cfgs))} :
          \E o \in {R(1..NumOut)} : \E y \in {R(BOOLEAN)} :
            Export(cs, rc, o, y)
     \/ k \in 10..12 /\ \E P \in {PoolOut} :
          \E os \in {RSeq(R(1..3), P)} :
          \E rc \in {IF R(1..2) = 1 THEN 0 ELSE R(P)} :
          \E b \in {R(BOOLEAN)} : Use(os, rc, b)
     \/ k \in 13..14 /\ \E P \in {Pool} : \E cs \in {RSeq(R(1..4), P)} :
          \E rc \in {IF R(1..2) = 1 THEN 0 ELSE R(1..Len(cfgs))} :
            Reconstruct(cs, rc)
  \/ End
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* nothing that exists is lost without consent                               *)
Consent == [][\A o \in DOMAIN exp : exp[o] # NoExp /\ exp'[o] # exp[o]
                => hist'[Len(hist')].op.yes]_vars
Continued == [][\A d \in DOMAIN man : man[d] # NoMan /\ man'[d] # man[d]
                => \/ hist'[Len(hist')].op.yes
                   \/ /\ man'[d] # NoMan
                      /\ man'[d][1].trafo = man[d][1].trafo
                      /\ man'[d][1].order = man[d][1].order
                      /\ man'[d][1].steps > man[d][1].steps]_vars
(* an ensemble has one order of parameters and one normalisation             *)
OneHypothesis == \A o \in DOMAIN exp : Same(exp[o].models)
(* an export is a snapshot: only an export to the same place changes it      *)
Snapshot == [][\A o \in DOMAIN exp : exp'[o] # exp[o]
                => hist'[Len(hist')].op.do = "export"]_vars
(* what is used was trained: some training or continuation made it           *)
Made == {hist[i].res[1] : i \in {j \in DOMAIN hist :
           hist[j].op.do = "train" /\ hist[j].out = "ok"}}
Origin == /\ \A d \in DOMAIN man : \A j \in DOMAIN man[d] :
               man[d][j] \in Made
          /\ \A o \in DOMAIN exp : \A j \in DOMAIN exp[o].models :
               exp[o].models[j] \in Made
(* the parts of a sum are other models, as they were when it was made, all moved
   by the same amount                                                        *)
Sums == \A d \in DOMAIN man : \A j \in DOMAIN man[d] :
  man[d][j].bases # <<>> => man[d][j].w = 0 /\ man[d][j].steps > 0
(* training a sum leaves the models alone that it was made of                *)
Apart == [][\A d \in DOMAIN man : man'[d] # man[d] =>
  LET op == hist'[Len(hist')].op IN op.do = "train" /\ cfgs[op.c].dir = d]_vars
(* for the enumeration: results of earlier commands do not matter            *)
View == <<cfgs, trafo, man, exp, phase, Len(hist), Made>>
Emit == phase = "done" => PrintT("case" \o ToJson(
  [cfgs |-> cfgs, hist |-> hist, man |-> man, exp |-> exp]))
================================================================================
