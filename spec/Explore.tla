-------------------------------- MODULE Explore --------------------------------
(* Exploring the likelihood of an event around its best fit: Markov chains
   (manager/reconstruction/modules/mcmc.py, SourceManager.run_mcmc_on_events) and
   scans of single parameters (.../visualization.py).

   As in FitRouting a parameter has a raw number m with the value m or, for
   logarithmic parameters, 2^m - 1; its coordinate in normalised space is
   (m - mu) / sg.  The loss of an event D with values v is
     (a.v - D)^2 + c.v + sum_j q[j] v[j]^2.

   Chains start at the best fit.  In each step each chain is offered a point of
   the fitted parameters, and moves there if it is accepted; all other parameters
   keep their seeds.  Of every (between + 1)th step after the first burnin steps
   the accepted points are kept.

   A scan of parameter j moves j by one unit of its normalised coordinate to
   either side of the truth, all other parameters are those of the truth, or of
   the best fit.  The ends of the scans are stated here.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPar, MaxChains, MaxResults, Range, Small

VARIABLES cfg, event,
          at,      \* where each chain is
          steps,   \* the steps so far: for each chain a point and a decision
          kept,    \* what is kept: chain, hypothesis, loss
          phase
vars == <<cfg, event, at, steps, kept, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m - 1)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

Pars == 1..Len(cfg.log)
\* halves do not occur: scans of logarithmic parameters that would leave the
\* numbers stated here are left out (0)
Value(j, m) == IF cfg.log[j] THEN Pow2(m) - 1 ELSE m
Loss(h) == LET v == [j \in Pars |-> Value(j, h[j])]
               e == Sum([j \in Pars |-> cfg.a[j] * v[j]]) - event.data
           IN e * e + Sum([j \in Pars |-> cfg.c[j] * v[j]])
                    + Sum([j \in Pars |-> cfg.q[j] * v[j] * v[j]])

Merge(x) == [j \in Pars |-> IF cfg.fit[j] THEN x[j] ELSE event.seed[j]]
Total == cfg.burnin + 1 + (cfg.results - 1) * (cfg.between + 1)
Result(k) == k > cfg.burnin /\ (k - cfg.burnin - 1) % (cfg.between + 1) = 0

Start == /\ phase = "start" /\ phase' = "run"
         /\ at' = [k \in 1..cfg.chains |-> event.best]
         /\ UNCHANGED <<cfg, event, steps, kept>>

Step(props, accs) ==
  /\ phase = "run" /\ Len(steps) < Total
  /\ steps' = Append(steps, [k \in 1..cfg.chains |->
                               [x |-> props[k], ok |-> accs[k]]])
  /\ at' = [k \in 1..cfg.chains |-> IF accs[k] THEN Merge(props[k]) ELSE at[k]]
  /\ kept' = kept \o (IF Result(Len(steps) + 1)
       THEN Flat([k \in 1..cfg.chains |-> IF accs[k]
            THEN <<[chain |-> k, x |-> at'[k], loss |-> Loss(at'[k])]>>
            ELSE <<>>])
       ELSE <<>>)
  /\ UNCHANGED <<cfg, event, phase>>

End == phase = "run" /\ Len(steps) = Total /\ phase' = "done"
       /\ UNCHANGED <<cfg, event, at, steps, kept>>

\* the ends of the scans around the truth and around the best fit
Ends(h) == [j \in Pars |-> [s \in 1..2 |->
  LET m == event.truth[j] + (IF s = 1 THEN - cfg.sg[j] ELSE cfg.sg[j])
  IN IF cfg.log[j] /\ m < 0 THEN [in |-> FALSE, loss |-> 0]
     ELSE [in |-> TRUE, loss |-> Loss([h EXCEPT ![j] = m])]]]

----------------------------------------------------------------------------
(* what is kept are points that were accepted, with their own loss           *)
Points == \A i \in DOMAIN kept :
  /\ kept[i].loss = Loss(kept[i].x)
  /\ \E n \in DOMAIN steps : LET p == steps[n][kept[i].chain]
                             IN Result(n) /\ p.ok /\ Merge(p.x) = kept[i].x
(* parameters that are not fitted never change                               *)
Fixed == \A i \in DOMAIN kept : \A j \in Pars :
  ~cfg.fit[j] => kept[i].x[j] = event.seed[j]
(* a chain is where it was accepted last                                     *)
Last == phase # "run" \/ \A k \in DOMAIN at :
  LET ns == {n \in DOMAIN steps : steps[n][k].ok}
  IN at[k] = IF ns = {} THEN event.best
             ELSE Merge(steps[CHOOSE n \in ns : \A m \in ns : m <= n][k].x)
(* nothing is lost: each accepted point of a result is kept once, in order   *)
Number == phase = "done" => Len(kept) =
  Cardinality({<<n, k>> \in (DOMAIN steps) \X (1..cfg.chains) :
                 Result(n) /\ steps[n][k].ok})
Most == Len(kept) <= cfg.chains * cfg.results

----------------------------------------------------------------------------
R(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> R(S)])
RawFor(j) == IF cfg.log[j] THEN R(0..4) ELSE R(-Range..Range)
RawVec == TLCEval([j \in Pars |-> RawFor(j)])
SmallVecs == {<<0, 1>>, <<1, 0>>, <<1, 1>>}

NoEvent == [data |-> 0, truth |-> <<>>, seed |-> <<>>, best |-> <<>>]
Init == /\ at = <<>> /\ steps = <<>> /\ kept = <<>>
        /\ IF Small
           THEN /\ phase = "start"
                /\ \E l \in {<<FALSE, FALSE>>, <<FALSE, TRUE>>} :
                   \E m \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>} :
                   \E b \in 0..1 : \E t \in 0..1 :
                     cfg = [log |-> l, mu |-> <<0, 1>>, sg |-> <<2, 1>>,
                            a |-> <<1, 2>>, c |-> <<0, 1>>, q |-> <<1, 1>>,
                            fit |-> m, trafo |-> TRUE, chains |-> MaxChains,
                            results |-> MaxResults, burnin |-> b,
                            between |-> t]
                /\ \E s \in SmallVecs : event =
                     [data |-> 1, truth |-> <<0, 0>>, seed |-> s,
                      best |-> [j \in 1..2 |-> IF cfg.fit[j] THEN 0 ELSE s[j]]]
           ELSE /\ phase = "setup" /\ event = NoEvent
                /\ cfg = [log |-> <<>>, fit |-> <<>>, chains |-> 1,
                          results |-> 1, burnin |-> 0, between |-> 0]

Setup == /\ phase = "setup" /\ phase' = "event"
         /\ \E n \in {R(1..MaxPar)} :
            \E m \in {IF R(1..2) = 1 THEN TLCEval([j \in 1..n |-> TRUE])
                      ELSE RSeq(n, BOOLEAN)} :
            \E l \in {IF R(1..2) = 1 THEN TLCEval([j \in 1..n |-> FALSE])
                      ELSE RSeq(n, BOOLEAN)} :
              cfg' = [log |-> l, mu |-> RSeq(n, -3..3), sg |-> RSeq(n, 1..3),
                      a |-> RSeq(n, -3..3), c |-> RSeq(n, -4..4),
                      q |-> RSeq(n, 1..3),
                      fit |-> IF \A j \in 1..n : ~m[j]
                              THEN [m EXCEPT ![1] = TRUE] ELSE m,
                      trafo |-> R(1..2) = 1, chains |-> R(1..MaxChains),
                      results |-> R(1..MaxResults), burnin |-> R(0..3),
                      between |-> IF R(1..2) = 1 THEN 0 ELSE R(1..2)]
         /\ UNCHANGED <<event, at, steps, kept>>
Event == /\ phase = "event" /\ phase' = "start"
         /\ \E s \in {RawVec} : \E b \in {RawVec} : \E t \in {RawVec} :
              event' = [data |-> R(-9..9), truth |-> t, seed |-> s,
                        best |-> [j \in Pars |-> IF cfg.fit[j] THEN b[j]
                                                 ELSE s[j]]]
         /\ UNCHANGED <<cfg, at, steps, kept>>

Next ==
  \/ Start \/ End
  \/ IF Small THEN \E p \in [1..cfg.chains -> SmallVecs] :
                   \E a \in [1..cfg.chains -> BOOLEAN] : Step(p, a)
     ELSE \/ Setup \/ Event
          \/ /\ phase = "run"
             /\ \E p \in {TLCEval([k \in 1..cfg.chains |-> RawVec])} :
                \E a \in {TLCEval([k \in 1..cfg.chains |-> R(1..3) > 1])} :
                  Step(p, a)
Spec == Init /\ [][Next]_vars
Emit == phase = "done" => PrintT("case" \o ToJson(
  [cfg |-> cfg, event |-> event, steps |-> steps, kept |-> kept,
   best |-> Loss(event.best), truth |-> Loss(event.truth),
   ends |-> <<Ends(event.truth), Ends(event.best)>>]))
================================================================================
