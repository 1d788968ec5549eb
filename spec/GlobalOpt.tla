------------------------------- MODULE GlobalOpt -------------------------------
(* Derivative-free minimisation (egenerator/utils/spherical_opt.py).

   Points are told apart by the number of the evaluation that visited them;
   the value of the function at a point never visited before is arbitrary.
   Each step is one iteration of the Nelder-Mead or of the controlled random
   search (CRS2) method.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxDim,      \* largest number of dimensions
          MaxBatch,    \* largest number of points proposed together
          MaxIter,     \* largest limit on the number of iterations
          Values,      \* values of the function are 0..Values or infinite
          Simulated

VARIABLES cfg,    \* settings
          phase,  \* "start", "run" or "end"
          pts,    \* points in use, by increasing value: [id, val]
          evals,  \* values in the order of the evaluations
          iter, noimp, best, why,
          snaps   \* points in use at the start of each iteration
vars == <<cfg, phase, pts, evals, iter, noimp, best, why, snaps>>

Inf == 999
Val == (0..Values) \cup {Inf}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Vals(ps) == {ps[i].val : i \in DOMAIN ps}

RECURSIVE Insert(_, _)
Insert(ps, p) ==
  IF ps = <<>> THEN <<p>>
  ELSE IF Head(ps).val <= p.val THEN <<Head(ps)>> \o Insert(Tail(ps), p)
  ELSE <<p>> \o ps
RECURSIVE Sorted(_)
Sorted(ps) == IF ps = <<>> THEN <<>>
              ELSE Insert(Sorted(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)])
Front(s, n) == SubSeq(s, 1, n)
Back(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* points with the values vs, evaluated after n others
News(vs, n) == [i \in DOMAIN vs |-> [id |-> n + i, val |-> vs[i]]]

----------------------------------------------------------------------------
(* when to stop: the standard deviation of the values is compared without
   square roots; it is never below the threshold sqrt(p/q) at infinity       *)
Spread(ps) ==
  LET n == Len(ps)
      s == Sum([i \in DOMAIN ps |-> ps[i].val])
      t == Sum([i \in DOMAIN ps |-> ps[i].val * ps[i].val])
  IN n * t - s * s
Narrow(ps) ==
  /\ Inf \notin Vals(ps)
  /\ cfg.fthr # <<>>
  /\ cfg.fthr[2] * Spread(ps) < cfg.fthr[1] * Len(ps) * Len(ps)
Border(ps) ==
  /\ Inf \notin Vals(ps)
  /\ cfg.fthr # <<>>
  /\ cfg.fthr[2] * Spread(ps) = cfg.fthr[1] * Len(ps) * Len(ps)
Reasons ==
  (IF cfg.calls > 0 /\ Len(evals) >= cfg.calls THEN {0} ELSE {}) \cup
  (IF Narrow(pts) THEN {1} ELSE {}) \cup
  (IF cfg.noimp > 0 /\ noimp > cfg.noimp THEN {2} ELSE {}) \cup
  (IF iter >= cfg.iter THEN {-1} ELSE {})

----------------------------------------------------------------------------
(* one iteration that makes use of the first values of vs: the points that
   are then in use and the number of values that have been used              *)
NelderMead(vs) ==
  LET n == Len(pts)
      m == Len(evals)
      new == News(vs, m)
      with(p) == Sorted(Append(Front(pts, n - 1), p))
      r == vs[1]
  IN IF r < pts[n - 1].val /\ r >= pts[1].val
     THEN [pts |-> with(new[1]), used |-> 1]
     ELSE IF r < pts[1].val
     THEN [pts |-> with(IF vs[2] < r THEN new[2] ELSE new[1]), used |-> 2]
     ELSE IF vs[2] < (IF r < pts[n].val THEN r ELSE pts[n].val)
     THEN [pts |-> with(new[2]), used |-> 2]
     ELSE [pts |-> Sorted(<<pts[1]>> \o SubSeq(new, 3, n + 1)),
           used |-> n + 1]

\* the largest number of the worst old points that can each be replaced by a
\* new one that is better
Replaced(old, new) ==
  LET can(k) == \A i \in 1..k : new[i].val < Back(old, k)[i].val
  IN MaxOf({0} \cup {k \in 1..(IF Len(new) < Len(old) THEN Len(new)
                                ELSE Len(old)) : can(k)})
Search(vs) ==
  LET n == Len(pts)
      m == Len(evals)
      b == cfg.batch
      first == Sorted(News(Front(vs, b), m))
      k == Replaced(pts, first)
      got == Front(first, k)
      old == Front(pts, n - k)
      second == Sorted(News(SubSeq(vs, b + 1, 2 * b - k), m + b))
      l == Replaced(old, second)
  IN IF k = b THEN [pts |-> Sorted(old \o got), used |-> b]
     ELSE [pts |-> Sorted(Front(old, Len(old) - l) \o Front(second, l)
                            \o got),
           used |-> 2 * b - k]
Step(vs) == IF cfg.method = "CRS2" THEN Search(vs) ELSE NelderMead(vs)
Most(c) == IF c.method = "CRS2" THEN 2 * c.batch ELSE c.points + 1

----------------------------------------------------------------------------
Ids(ps) == [i \in DOMAIN ps |-> ps[i].id]
Begin(c, vs) ==
  /\ phase = "start"
  /\ cfg' = c /\ phase' = "run"
  /\ evals' = vs
  /\ pts' = Sorted(News(vs, 0))
  /\ best' = MinOf({vs[i] : i \in DOMAIN vs})
  /\ iter' = 0 /\ noimp' = 0 /\ why' = {}
  /\ snaps' = << Ids(Sorted(News(vs, 0))) >>
Iterate(vs) ==
  /\ phase = "run" /\ Reasons = {}
  /\ LET s == Step(vs)
         better == MinOf(Vals(s.pts)) < best
     IN /\ \A i \in DOMAIN vs : i > s.used => vs[i] = 0
        /\ pts' = s.pts
        /\ evals' = evals \o Front(vs, s.used)
        /\ best' = MinOf(Vals(s.pts))
        /\ noimp' = IF better THEN 0 ELSE noimp + 1
        /\ snaps' = Append(snaps, Ids(s.pts))
  /\ iter' = iter + 1
  /\ UNCHANGED <<cfg, phase, why>>
Stop ==
  /\ phase = "run" /\ Reasons # {}
  /\ phase' = "end" /\ why' = Reasons
  /\ UNCHANGED <<cfg, pts, evals, iter, noimp, best, snaps>>

----------------------------------------------------------------------------
(* Properties *)
Running == phase # "start"
\* the lowest point in use is the lowest of all evaluated ones
KeepsBest ==
  Running => /\ best = MinOf({evals[i] : i \in DOMAIN evals})
             /\ pts[1].val = best
\* points in use have been evaluated, with these values
Evaluated ==
  Running => /\ \A i \in DOMAIN pts : /\ pts[i].id \in DOMAIN evals
                                      /\ evals[pts[i].id] = pts[i].val
             /\ Cardinality({pts[i].id : i \in DOMAIN pts}) = Len(pts)
             /\ Len(pts) = cfg.points
\* limits are exceeded by what a single iteration may need at most
Limited ==
  Running => /\ iter <= cfg.iter
             /\ cfg.calls > 0 =>
                  \/ Len(evals) < cfg.calls + Most(cfg)
                  \/ iter = 0
             /\ Len(evals) >= cfg.points + iter
             /\ Len(evals) <= cfg.points + iter * Most(cfg)
             /\ noimp <= iter
Descends == [][(phase = "run" /\ phase' = "run") => best' <= best]_vars

----------------------------------------------------------------------------
R(S) == RandomElement(S)
Draw(j) == LET x == TLCEval(R(0..(Values + Values \div 4)))
        IN IF x <= Values THEN x
           ELSE IF x = Values + 1 THEN Inf ELSE x \div 3
Draws(n) == TLCEval([i \in 1..n |-> Draw(i)])
Thresholds == {<<3, 10>>, <<7, 5>>, <<3, 1>>, <<17, 2>>, <<>>}
SmallConfigs ==
  {[method |-> m, dim |-> 1, pairs |-> 0, batch |-> b,
    points |-> b + 1, iter |-> i, calls |-> c, noimp |-> n,
    fthr |-> f] :
     m \in {"CRS2", "Nelder-Mead"}, b \in 1..MaxBatch, i \in {MaxIter},
     c \in {0, 4}, n \in {0, 1}, f \in {<<3, 10>>, <<>>}}
Init ==
  /\ phase = "start" /\ cfg = [method |-> ""] /\ pts = <<>> /\ evals = <<>>
  /\ iter = 0 /\ noimp = 0 /\ best = 0 /\ why = {} /\ snaps = <<>>
Next ==
  \/ IF Simulated
     THEN \/ \E crs \in {R(BOOLEAN)} : \E d \in {R(1..MaxDim)} :
             \E b \in {IF crs THEN R(1..MaxBatch) ELSE 1} :
             \E p \in {R(0..(d \div 2))} :
             \E n \in {IF crs THEN b * d + 1 + R(0..3) ELSE d + 1} :
             \E it \in {IF R(1..9) = 1 THEN 0 ELSE R(1..MaxIter)} :
             \E ca \in {IF R(1..3) = 1 THEN R(1..(MaxIter * 2)) ELSE 0} :
             \E no \in {IF R(1..2) = 1 THEN R(1..6) ELSE 0} :
             \E f \in {R(Thresholds)} : \E vs \in {Draws(n)} :
               Begin([method |-> IF crs THEN "CRS2" ELSE "Nelder-Mead",
                      dim |-> d, pairs |-> p, batch |-> b, points |-> n,
                      iter |-> it, calls |-> ca, noimp |-> no,
                      fthr |-> f], vs)
          \/ /\ phase = "run"
             /\ \E w \in {Draws(Most(cfg))} :
                LET k == Step(w).used
                IN Iterate([i \in DOMAIN w |-> IF i <= k THEN w[i] ELSE 0])
     ELSE \/ \E c \in SmallConfigs :
               /\ c.method = "Nelder-Mead" => c.batch = 1
               /\ \E vs \in [1..c.points -> Val] : Begin(c, vs)
          \/ /\ phase = "run" /\ iter < cfg.iter
             /\ \E vs \in [1..Most(cfg) -> Val] : Iterate(vs)
  \/ Stop
Spec == Init /\ [][Next]_vars
Clear == Running => ~Border(pts)
Emit == (phase = "end") =>
          PrintT(ToJson([cfg |-> cfg, evals |-> evals, snaps |-> snaps,
                         iter |-> iter, why |-> why, best |-> best]))
================================================================================
