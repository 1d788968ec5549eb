---------------------------- MODULE VectorSplit ----------------------------
(***************************************************************************)
(* Splitting a vector tensor into events and joining it again (P02).       *)
(* Every case (assignment of vector elements to events) is one initial     *)
(* state; the expected results are computed here and replayed on the real  *)
(* functions.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxElems, MaxEvents

VARIABLES n, owner, done
vars == <<n, owner, done>>

\* elements are numbered by position; owner[k] is the event of element k
SplitEvent(o, e) == SelectSeq([k \in 1..Len(o) |-> k], LAMBDA k : o[k] = e)
Split(o, m) == [e \in 1..m |-> SplitEvent(o, e)]
Join(s) == FlattenSeq(s)
IsGrouped(o) == \A i, j \in DOMAIN o : i < j => o[i] <= o[j]

Init == /\ n \in 0..MaxEvents
        /\ \E len \in 0..MaxElems :
             (n = 0 => len = 0) /\ owner \in [1..len -> 1..n]
        /\ done = FALSE

\* No element is lost, duplicated or moved to another event; the order
\* within an event is kept; joining restores an event-ordered vector.
Partition ==
  /\ \A e \in 1..n : \A i \in DOMAIN Split(owner, n)[e] :
        owner[Split(owner, n)[e][i]] = e
  /\ Len(Join(Split(owner, n))) = Len(owner)
  /\ ToSet(Join(Split(owner, n))) = DOMAIN owner
  /\ \A e \in 1..n : \A i, j \in DOMAIN Split(owner, n)[e] :
        i < j => Split(owner, n)[e][i] < Split(owner, n)[e][j]
RoundTrip == IsGrouped(owner) =>
             Join(Split(owner, n)) = [k \in 1..Len(owner) |-> k]
Inv == Partition /\ RoundTrip

Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<n, owner>>
        /\ PrintT(ToJson([n |-> n, owner |-> owner,
                          split |-> Split(owner, n)]))
Spec == Init /\ [][Emit]_vars
=============================================================================
