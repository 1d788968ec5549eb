------------------------------- MODULE TrafoMap -------------------------------
(* The data transformation as a map on entries (egenerator/data/trafo.py).

   An event has a grid of Rows x Cols entries.  Every entry has a mean and a
   standard deviation, obtained from two events at mean -/+ spread; along the
   reduced axes they are replaced by their average.  A spread of zero (after
   averaging) counts as one.  A logarithm can be configured per column; value
   k of such a column stands for the raw number exp(k) - 1.

     transform          t = (k - mean) / (c + std)
     inverse            k = t * (c + std) + mean
     differences        d -> d / (c + std)   without logarithm and mean
     covariances        C[i][j] -> C[i][j] * (c + std_i) * (c + std_j)       *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Rows, Cols,
          Means, Spreads,    \* integers
          Queries,           \* values to transform
          Simulated

VARIABLES mean, spread, log, reduce, norm, query
vars == <<mean, spread, log, reduce, norm, query>>

Grid == (1..Rows) \X (1..Cols)
Norms == {R(1, 2), R(1, 16), R(1, 1)}
Reduces == {"none", "cols", "rows", "all"}

Fixed ==
  /\ mean \in [Grid -> Means] /\ spread \in [Grid -> Spreads]
  /\ log \in [1..Cols -> BOOLEAN]
  /\ reduce \in Reduces /\ norm \in Norms
  /\ query \in [Grid -> Queries]
Draw ==
  /\ \E m \in {TLCEval([g \in Grid |-> RandomElement(Means)])} : mean' = m
  /\ \E s \in {TLCEval([g \in Grid |-> RandomElement(Spreads)])} : spread' = s
  /\ \E l \in {TLCEval([c \in 1..Cols |-> RandomElement(BOOLEAN)])} : log' = l
  /\ \E r \in {RandomElement(Reduces)} : reduce' = r
  /\ \E n \in {RandomElement(Norms)} : norm' = n
  /\ \E q \in {TLCEval([g \in Grid |-> RandomElement(Queries)])} : query' = q
Init == IF Simulated
        THEN /\ mean = [g \in Grid |-> 0] /\ spread = mean /\ query = mean
             /\ log = [c \in 1..Cols |-> FALSE]
             /\ reduce = "none" /\ norm = R(1, 2)
        ELSE Fixed
Next == IF Simulated THEN Draw ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Group(g) == CASE reduce = "none" -> {g}
              [] reduce = "cols" -> {h \in Grid : h[1] = g[1]}
              [] reduce = "rows" -> {h \in Grid : h[2] = g[2]}
              [] reduce = "all" -> Grid
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0
               ELSE LET g == CHOOSE h \in S : TRUE
                    IN f[g] + Total(f, S \ {g})
Average(f, S) == R(Total(f, S), Cardinality(S))

Mean(g) == Average(mean, Group(g))
Std(g) == LET s == Average(spread, Group(g))
          IN IF s = RI(0) THEN RI(1) ELSE s
Scale(g) == RAdd(norm, Std(g))

T(g, k) == RDiv(RSub(k, Mean(g)), Scale(g))
Inv(g, t) == RAdd(RMul(t, Scale(g)), Mean(g))
TDiff(g, d) == RDiv(d, Scale(g))
InvDiff(g, d) == RMul(d, Scale(g))

Inverse ==
  \A g \in Grid : LET k == RI(query[g]) IN
    /\ Inv(g, T(g, k)) = k
    /\ T(g, Inv(g, k)) = k
    /\ InvDiff(g, TDiff(g, k)) = k
    /\ TDiff(g, InvDiff(g, k)) = k
\* differences are what is left of the difference of two transformed values
Differences ==
  \A g, h \in Grid : Std(g) = Std(h) /\ Mean(g) = Mean(h) =>
    RSub(T(g, RI(query[g])), T(h, RI(query[h])))
      = TDiff(g, RI(query[g] - query[h]))
\* a variance scales with the square of what a difference scales with
Variances ==
  \A g \in Grid : RMul(Scale(g), Scale(g))
                    = RMul(InvDiff(g, RI(1)), InvDiff(g, RI(1)))

Row(f(_)) == [r \in 1..Rows |-> [c \in 1..Cols |-> f(<<r, c>>)]]
Emit ==
  PrintT(ToJson(
    [mean |-> Row(LAMBDA g : mean[g]), spread |-> Row(LAMBDA g : spread[g]),
     log |-> log, reduce |-> reduce, norm |-> norm,
     query |-> Row(LAMBDA g : query[g]),
     fwd |-> Row(LAMBDA g : T(g, RI(query[g]))),
     inv |-> Row(LAMBDA g : Inv(g, RI(query[g]))),
     fwd_diff |-> Row(LAMBDA g : TDiff(g, RI(query[g]))),
     inv_diff |-> Row(LAMBDA g : InvDiff(g, RI(query[g]))),
     scale |-> Row(Scale)]))
================================================================================
