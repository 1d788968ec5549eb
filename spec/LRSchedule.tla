------------------------------ MODULE LRSchedule ------------------------------
(* Piecewise learning rate schedules (egenerator/utils/learning_rate.py).

   A schedule is a leaf (told by its number) or a list of schedules, each of
   which is responsible from one boundary to the next.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxParts,   \* largest number of intervals
          MaxBound,   \* largest boundary
          Last,       \* last step that is looked at
          Small       \* all schedules without nesting, or random ones

VARIABLES bounds,     \* boundaries of the schedule
          parts,      \* <<>>, or nested boundaries at each part (<<>>: leaf)
          step, path, \* current step, responsible part and steps therein
          seen        \* what was responsible so far
vars == <<bounds, parts, step, path, seen>>

\* the part responsible for a step, and the steps since it began
Part(bs, s) == 1 + Cardinality({i \in DOMAIN bs : s > bs[i]})
Local(bs, s) == LET i == Part(bs, s) IN IF i = 1 THEN s ELSE s - bs[i - 1]
\* <<part, part of nested schedule or 0, steps>>
Where(bs, ps, s) ==
  LET i == Part(bs, s)
      l == Local(bs, s)
  IN IF ps[i] = <<>> THEN <<i, 0, l>>
     ELSE <<i, Part(ps[i], l), Local(ps[i], l)>>

Increasing(n, m) == {f \in [1..n -> 0..m] : \A i \in 2..n : f[i - 1] < f[i]}
Nesting(n) ==
  TLCEval([i \in 1..n |->
     IF RandomElement(1..3) > 1 THEN <<>>
     ELSE RandomElement(UNION {Increasing(k, 5) : k \in 1..3})])

Init ==
  /\ step = 0 /\ seen = <<>>
  /\ \E n \in 0..(MaxParts - 1) :
       IF Small
       THEN /\ bounds \in Increasing(n, MaxBound)
            /\ parts = [i \in 1..(n + 1) |-> <<>>]
       ELSE /\ bounds = RandomElement(Increasing(n, MaxBound))
            /\ \E j \in 1..12 : parts = Nesting(n + 1)
  /\ path = Where(bounds, parts, 0)
Next ==
  /\ step < Last
  /\ step' = step + 1
  /\ path' = Where(bounds, parts, step + 1)
  /\ seen' = Append(seen, path)
  /\ UNCHANGED <<bounds, parts>>
Spec == Init /\ [][Next]_vars

\* exactly one part is responsible, between its boundaries
Responsible ==
  LET low(i) == IF i = 1 THEN -1 ELSE bounds[i - 1]
      holds(i) == step > low(i) /\
                  (i <= Len(bounds) => step <= bounds[i])
  IN /\ {i \in 1..(Len(bounds) + 1) : holds(i)} = {path[1]}
     /\ step > MaxBound => path[1] = Len(bounds) + 1
     /\ path[3] >= 0
\* parts follow each other without a gap, and count their own steps
NoGaps ==
  [][LET same == path'[1] = path[1] /\ path'[2] = path[2]
     IN IF same THEN path'[3] = path[3] + 1
        ELSE /\ path'[3] = 1
             /\ \/ path'[1] > path[1]
                \/ path'[1] = path[1] /\ path'[2] = path[2] + 1]_vars
Emit == (step = Last) =>
          PrintT(ToJson([bounds |-> bounds, parts |-> parts,
                         paths |-> Append(seen, path)]))
================================================================================
