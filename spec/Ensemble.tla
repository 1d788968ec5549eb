------------------------------- MODULE Ensemble --------------------------------
(* Which models can be combined in an ensemble
   (egenerator/manager/base.py: BaseModelManager._configure).

   A model has named parameters and was configured with a data transformation,
   which in turn belongs to a data handler.  Handlers and transformations have
   settings that matter (h, t), settings that may be changed at any time
   (hm, tm), and a transformation has data (d) obtained from the sample.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxModels, Simulated

VARIABLES handler,  \* handler of the manager
          members
vars == <<handler, members>>

Names == {<<"a", "b">>, <<"b", "a">>, <<"a", "b", "c">>}
Handlers == [h : 0..1, hm : 0..1]
Models == [names : Names, h : 0..1, hm : 0..1, t : 0..1, tm : 0..1, d : 0..2]

Accepted(hd, ms) ==
  \A i \in DOMAIN ms :
    /\ ms[i].names = ms[1].names       \* also in the same order
    /\ ms[i].h = hd.h                  \* the data mean the same
    /\ ms[i].t = ms[1].t
    /\ ms[i].d = ms[1].d

\* the order of the models does not matter, and all that is accepted stays so
\* when members are left out
OrderIrrelevant ==
  Accepted(handler, members) =
    Accepted(handler, [i \in DOMAIN members |->
                         members[Len(members) + 1 - i]])
SubEnsembles ==
  Accepted(handler, members) =>
    \A i \in DOMAIN members :
      Accepted(handler, SubSeq(members, 1, i))
Pairwise ==
  Accepted(handler, members) =
    \A i, j \in DOMAIN members : Accepted(handler, <<members[i], members[j]>>)

Near(m) == {m} \cup {[m EXCEPT !.names = n] : n \in Names}
               \cup {[m EXCEPT !.h = 1 - @], [m EXCEPT !.hm = 1 - @],
                     [m EXCEPT !.t = 1 - @], [m EXCEPT !.tm = 1 - @]}
               \cup {[m EXCEPT !.d = k] : k \in 0..2}
               \cup {[m EXCEPT !.tm = 1 - @, !.hm = 1 - @]}
M0 == [names |-> <<"a", "b">>, h |-> 0, hm |-> 0, t |-> 0, tm |-> 0, d |-> 0]
Init ==
  IF Simulated
  THEN handler = [h |-> 0, hm |-> 0] /\ members = <<M0>>
  ELSE /\ handler \in Handlers
       /\ \E m \in {M0, [M0 EXCEPT !.h = 1, !.d = 1]} :
            \/ \E x \in Near(m) : members = <<x>>
            \/ \E x, y \in Near(m) : members = <<x, y>>
            \/ \E x \in Near(m) : members = <<m, m, x>>
Next ==
  IF Simulated
  THEN /\ \E hd \in {RandomElement(Handlers)} : handler' = hd
       /\ \E k \in {RandomElement(1..MaxModels)} :
            \E m \in {RandomElement(Models)} :
              \E s \in {TLCEval([i \in 1..k |->
                          IF RandomElement(1..6) = 1
                          THEN RandomElement(Near(m))
                          ELSE [m EXCEPT !.tm = RandomElement(0..1),
                                         !.hm = RandomElement(0..1)]])} :
                members' = s
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars

Emit == PrintT(ToJson([handler |-> handler, members |-> members,
                       accepted |-> Accepted(handler, members)]))
================================================================================
