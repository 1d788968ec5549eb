------------------------------- MODULE FrameReco -------------------------------
(* Reconstruction of a stream of frames (egenerator/ic3/reconstruction.py), or of
   the events of a test file (SourceManager.reconstruct_testdata).

   Every frame holds one event.  The event is fitted from each of the
   configured seeds; the optimizer is free to report any point of the fitted
   parameters.  The frame is then given what belongs to the best of its fits:
   the hypothesis, its loss and the one of its seed, whether that fit
   succeeded, and its uncertainties.  A seed may be the truth (label).

   As in FitRouting a parameter has a raw number m with the value m or, for
   logarithmic parameters, 2^m - 1.  The loss of an event D with values v is
     (a.v - D)^2 + c.v + sum_j q[j] v[j]^2.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPar, MaxSeeds, MaxFrames, Range, Small

VARIABLES cfg,     \* parameters, loss, fitted parameters, number of seeds
          event,   \* the event of the current frame: data, truth, seeds
          fits,    \* its fits so far: point, success
          frames,  \* finished frames: event, fits and what was written
          phase
vars == <<cfg, event, fits, frames, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m - 1)

Pars == 1..Len(cfg.log)
Value(j, m) == IF cfg.log[j] THEN Pow2(m) - 1 ELSE m
Dot(a, v) == Sum([j \in Pars |-> a[j] * v[j]])
Values(h) == [j \in Pars |-> Value(j, h[j])]
Terms(d, h) == LET v == Values(h)
                   e == Dot(cfg.a, v) - d
               IN <<e * e, Dot(cfg.c, v),
                    Sum([j \in Pars |-> cfg.q[j] * v[j] * v[j]])>>
Loss(d, h) == Sum(Terms(d, h))

\* derivatives with respect to the coordinates of the fit, in units of ln 2
DTerms(d, h, j) ==
  LET v == Values(h)
  IN <<2 * (Dot(cfg.a, v) - d) * cfg.a[j], cfg.c[j], 2 * cfg.q[j] * v[j]>>
Slope(j, m) == IF cfg.trafo
               THEN IF cfg.log[j] THEN cfg.sg[j] * Pow2(m) ELSE cfg.sg[j]
               ELSE 1
Gradient(d, h) == [j \in Pars |-> [i \in 1..3 |->
                     DTerms(d, h, j)[i] * Slope(j, h[j])]]
Hessian(d, h) == [i \in Pars |-> [j \in Pars |->
  Slope(i, h[i]) * Slope(j, h[j]) *
      (2 * cfg.a[i] * cfg.a[j] + (IF i = j THEN 2 * cfg.q[i] ELSE 0)) +
  (IF i = j /\ cfg.trafo /\ cfg.log[i]
   THEN cfg.sg[i] * Slope(i, h[i]) * Sum(DTerms(d, h, i)) ELSE 0)]]

----------------------------------------------------------------------------
None == [data |-> 0, truth |-> <<>>, seeds |-> <<>>]

Result(k) == [j \in Pars |-> IF cfg.fit[j] THEN fits[k].x[j]
                             ELSE event.seeds[k][j]]
LossOf(k) == Loss(event.data, Result(k))
\* the first of the best fits
Best == CHOOSE k \in 1..cfg.ns :
          /\ \A i \in 1..cfg.ns : LossOf(k) <= LossOf(i)
          /\ \A i \in 1..(k - 1) : LossOf(i) > LossOf(k)

Open(d, t, s) ==
              /\ phase = "idle" /\ Len(frames) < cfg.nf
              /\ event' = [data |-> d, truth |-> t, seeds |-> s]
              /\ fits' = <<>>
              /\ cfg.label > 0 => s[cfg.label] = t
              /\ phase' = "fit" /\ UNCHANGED <<cfg, frames>>

Fit(x, ok) == /\ phase = "fit" /\ Len(fits) < cfg.ns
              /\ fits' = Append(fits, [x |-> x, ok |-> ok])
              /\ UNCHANGED <<cfg, event, frames, phase>>

Write == /\ phase = "fit" /\ Len(fits) = cfg.ns
         /\ LET k == Best
                h == Result(k)
            IN frames' = Append(frames,
                 [data |-> event.data, truth |-> event.truth,
                  seeds |-> event.seeds, fits |-> fits,
                  best |-> k, result |-> h,
                  loss |-> Loss(event.data, h),
                  loss_true |-> Loss(event.data, event.truth),
                  loss_seed |-> Loss(event.data, event.seeds[k]),
                  ok |-> fits[k].ok,
                  grad |-> Gradient(event.data, h),
                  hess |-> Hessian(event.data, h)])
         /\ phase' = "idle" /\ event' = None /\ fits' = <<>>
         /\ UNCHANGED cfg

End == phase = "idle" /\ Len(frames) = cfg.nf /\ phase' = "done"
       /\ UNCHANGED <<cfg, event, fits, frames>>

----------------------------------------------------------------------------
(* no fit is better than what was written; of equal fits it is the first     *)
Least == \A f \in {frames[n] : n \in DOMAIN frames} : \A k \in 1..cfg.ns :
  LET h == [j \in Pars |-> IF cfg.fit[j] THEN f.fits[k].x[j]
                           ELSE f.seeds[k][j]]
  IN /\ f.loss <= Loss(f.data, h)
     /\ k < f.best => f.loss < Loss(f.data, h)
(* everything in a frame belongs to the same fit of the same event           *)
Consistent == \A f \in {frames[n] : n \in DOMAIN frames} :
  /\ f.loss = Loss(f.data, f.result)
  /\ f.loss_seed = Loss(f.data, f.seeds[f.best])
  /\ f.loss_true = Loss(f.data, f.truth)
  /\ f.ok = f.fits[f.best].ok
  /\ \A j \in Pars : f.result[j] =
       IF cfg.fit[j] THEN f.fits[f.best].x[j] ELSE f.seeds[f.best][j]
(* the uncertainties are those of a parabola: symmetric, and slopes of the
   gradient in parameters without logarithm                                  *)
Symmetric == \A f \in {frames[n] : n \in DOMAIN frames} :
  \A i, j \in Pars : f.hess[i][j] = f.hess[j][i]
Curved == \A f \in {frames[n] : n \in DOMAIN frames} : \A i, j \in Pars :
  ~cfg.log[i] /\ ~cfg.log[j] =>
    LET u == IF cfg.trafo THEN cfg.sg[j] ELSE 1
        up == [f.result EXCEPT ![j] = @ + 1]
        dn == [f.result EXCEPT ![j] = @ - 1]
    IN u * (Sum(Gradient(f.data, up)[i]) - Sum(Gradient(f.data, dn)[i]))
         = 2 * f.hess[i][j]
(* events do not mix: equal events with equal fits have equal frames         *)
NoMemory == \A m, n \in DOMAIN frames :
  frames[m].data = frames[n].data /\ frames[m].truth = frames[n].truth /\
  frames[m].seeds = frames[n].seeds /\
  frames[m].fits = frames[n].fits => frames[m] = frames[n]
InOrder == Len(frames) <= cfg.nf /\ (phase = "done" => Len(frames) = cfg.nf)

----------------------------------------------------------------------------
R(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> R(S)])
RawFor(j) == IF cfg.log[j] THEN R(0..4) ELSE R(-Range..Range)
RawVec == TLCEval([j \in Pars |-> RawFor(j)])

SmallRaw(j) == IF cfg.log[j] THEN 0..1 ELSE {-1, 1}
SmallVecs == {v \in [Pars -> {-1, 0, 1}] : \A j \in Pars : v[j] \in SmallRaw(j)}

Init == /\ event = None /\ fits = <<>> /\ frames = <<>>
        /\ IF Small
           THEN /\ phase = "idle"
                /\ \E l \in {<<FALSE, FALSE>>, <<FALSE, TRUE>>} :
                   \E m \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>} :
                   \E t \in BOOLEAN :
                     cfg = [log |-> l, mu |-> <<0, 1>>, sg |-> <<2, 1>>,
                            a |-> <<1, 2>>, c |-> <<0, 1>>, q |-> <<1, 1>>,
                            fit |-> m, trafo |-> t, ns |-> MaxSeeds, label |-> 0,
                            nf |-> MaxFrames]
           ELSE phase = "setup" /\ cfg = [log |-> <<>>, fit |-> <<>>, ns |-> 1, label |-> 0,
                                           nf |-> 1]

Setup == /\ phase = "setup" /\ phase' = "idle"
         /\ \E n \in {R(1..MaxPar)} : \E ns \in {R(1..MaxSeeds)} :
            \E m \in {IF R(1..2) = 1 THEN TLCEval([j \in 1..n |-> TRUE])
                      ELSE RSeq(n, BOOLEAN)} :
            \E l \in {IF R(1..2) = 1 THEN TLCEval([j \in 1..n |-> FALSE])
                      ELSE RSeq(n, BOOLEAN)} :
              cfg' = [log |-> l, mu |-> RSeq(n, -3..3), sg |-> RSeq(n, 1..3),
                      a |-> RSeq(n, -3..3), c |-> RSeq(n, -4..4),
                      q |-> RSeq(n, 1..3),
                      fit |-> IF \A j \in 1..n : ~m[j]
                              THEN [m EXCEPT ![1] = TRUE] ELSE m,
                      trafo |-> R(1..3) > 1, ns |-> ns,
                      label |-> IF R(1..3) = 1 THEN R(1..ns) ELSE 0,
                      nf |-> R(1..MaxFrames)]
         /\ UNCHANGED <<event, fits, frames>>

NextSmall == \/ \E d \in {1} : \E s \in [1..cfg.ns -> SmallVecs] :
                  Open(d, s[1], s)
             \/ \E x \in SmallVecs : \E ok \in BOOLEAN : Fit(x, ok)
             \/ Write \/ End
(* now and then an event, or a point, is seen again                          *)
NextRandom ==
  \/ Setup
  \/ \E again \in {R(1..5)} :
       IF again = 1 /\ Len(frames) > 0
       THEN \E n \in {R(1..Len(frames))} :
              Open(frames[n].data, frames[n].truth, frames[n].seeds)
       ELSE \E d \in {R(-9..9)} :
            \E t \in {RawVec} :
            \E s \in {TLCEval([k \in 1..cfg.ns |-> IF k = cfg.label THEN t
                                                 ELSE RawVec])} : Open(d, t, s)
  \/ \E again \in {R(1..5)} :
       IF again = 1 /\ Len(fits) > 0
       THEN \E ok \in {R(BOOLEAN)} : Fit(fits[Len(fits)].x, ok)
       ELSE \E x \in {RawVec} : \E ok \in {R(BOOLEAN)} : Fit(x, ok)
  \/ Write \/ End

Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars
Emit == phase = "done" =>
  PrintT("case" \o ToJson([cfg |-> cfg, frames |-> frames]))
================================================================================
