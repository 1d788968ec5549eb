------------------------------- MODULE NormStats -------------------------------
(* The statistics of the data transformation (egenerator/data/trafo.py).

   Events with a few entries arrive in batches; for every entry an online
   (Welford) estimate n, mean, M2 is kept.  The estimate is modelled with
   exact rational numbers and proved equal, at every point, to the definition
   over all events seen so far, i.e. independent of the division into batches
   and of the order.  Values are given after a possible logarithm: if the
   logarithm is configured for an entry, value k stands for the raw number
   exp(k) - 1, otherwise for k itself.                                        *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Entries,      \* number of entries of an event
          Values,       \* values an entry can take
          MaxEvents,    \* events in total
          Simulated     \* draw the events at random instead of all of them

VARIABLES events,   \* all events that could be delivered
          pos,      \* events consumed so far
          cuts,     \* sizes of the batches consumed so far
          est       \* per entry [n, mean, m2]
vars == <<events, pos, cuts, est>>

Ent == 1..Entries
EventSet == [Ent -> Values]

Update(e, x) ==     \* one step of the online estimate
  LET n == e.n + 1
      delta == RSub(RI(x), e.mean)
      mean == RAdd(e.mean, RDiv(delta, RI(n)))
      delta2 == RSub(RI(x), mean)
  IN [n |-> n, mean |-> mean, m2 |-> RAdd(e.m2, RMul(delta, delta2))]

RECURSIVE Fold(_, _, _, _)
Fold(e, from, to, c) ==
  IF from > to THEN e
  ELSE Fold(Update(e, events[from][c]), from + 1, to, c)

Init ==
  /\ IF Simulated THEN events = <<>>
     ELSE \E n \in 1..MaxEvents : events \in [1..n -> EventSet]
  /\ pos = 0
  /\ cuts = <<>>
  /\ est = [c \in Ent |-> [n |-> 0, mean |-> RI(0), m2 |-> RI(0)]]

Batch(k) ==
  /\ pos + k <= Len(events)
  /\ est' = [c \in Ent |-> Fold(est[c], pos + 1, pos + k, c)]
  /\ pos' = pos + k
  /\ cuts' = Append(cuts, k)
  /\ UNCHANGED events
\* simulation: draw a sample, consume it, draw the next one
Draw ==
  /\ Simulated
  /\ \E n \in {RandomElement(1..MaxEvents)} :
       \E e \in {TLCEval([i \in 1..n |-> TLCEval([c \in Ent |-> RandomElement(Values)])])} :
         events' = e
  /\ pos' = 0 /\ cuts' = <<>>
  /\ est' = [c \in Ent |-> [n |-> 0, mean |-> RI(0), m2 |-> RI(0)]]
Next == \/ IF Simulated
           THEN \E k \in {RandomElement(1..MaxEvents)} :
                  IF pos + k <= Len(events) THEN Batch(k) ELSE Draw
           ELSE \E k \in 1..MaxEvents : Batch(k)
        \/ ~Simulated /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Sum(_, _, _)
Sum(c, p, to) == IF to = 0 THEN 0
                 ELSE events[to][c] ^ p + Sum(c, p, to - 1)
Mean(c) == R(Sum(c, 1, pos), pos)
Var(c) == R(pos * Sum(c, 2, pos) - Sum(c, 1, pos) ^ 2, pos * pos)

\* the estimate is the definition, whatever the batches were
Exact == pos > 0 =>
  \A c \in Ent : /\ est[c].n = pos
                 /\ est[c].mean = Mean(c)
                 /\ RDiv(est[c].m2, RI(pos)) = Var(c)
                 /\ RLeq(RI(0), Var(c))
\* the order of events does not matter
Orderless == pos > 1 =>
  \A c \in Ent :
    LET swapped == [events EXCEPT ![1] = events[pos], ![pos] = events[1]]
        RECURSIVE F(_, _)
        F(e, i) == IF i > pos THEN e ELSE F(Update(e, swapped[i][c]), i + 1)
    IN F([n |-> 0, mean |-> RI(0), m2 |-> RI(0)], 1) = est[c]
\* a shift of all values shifts the mean and leaves the variance
Shifted == pos > 0 =>
  \A c \in Ent :
    LET RECURSIVE F(_, _)
        F(e, i) == IF i > pos THEN e
                   ELSE F(Update(e, events[i][c] + 7), i + 1)
        f == F([n |-> 0, mean |-> RI(0), m2 |-> RI(0)], 1)
    IN /\ f.mean = RAdd(est[c].mean, RI(7))
       /\ f.m2 = est[c].m2

Emit == pos > 0 =>
  PrintT(ToJson([events |-> events, cuts |-> cuts,
                 mean |-> [c \in Ent |-> Mean(c)],
                 var |-> [c \in Ent |-> Var(c)],
                 constant |-> {c \in Ent : Var(c) = RI(0)}]))
================================================================================
