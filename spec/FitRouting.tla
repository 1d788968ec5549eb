------------------------------- MODULE FitRouting ------------------------------
(* Fits of chosen parameters (egenerator/manager/source.py, reconstruction
   modules).

   A parameter has a raw number m.  Its value is m or, for logarithmically
   normalised parameters, 2^m - 1.  The coordinate that an optimizer sees is
   the value itself or, in normalised space, (m - mu)/sg (the normalisation
   divides out the mean and the width of m).  An optimizer asks for the loss
   at any points of the fitted parameters only and finally reports one of
   them; the specification says which hypothesis each point stands for, and
   hence what loss, derivatives and result the fit has to have.

   The loss of an event e of the data D with the value vector v is, for every
   member a of the ensemble,
     (a.v - D[e])^2 + c.v + sum_j q[j] v[j]^2,                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPar, MaxEvents, MaxMembers, MaxSteps, MaxAsks, Small

VARIABLES cfg,     \* log, mu, sg of the parameters; members, c, q; data; seeds
          steps,   \* finished fits and further steps
          cur,     \* the running fit
          phase
vars == <<cfg, steps, cur, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Pow2(_)
Pow2(m) == IF m = 0 THEN 1 ELSE 2 * Pow2(m - 1)

NP == Len(cfg.log)
NE == Len(cfg.data)
Pars == 1..NP
Value(j, m) == IF cfg.log[j] THEN Pow2(m) - 1 ELSE m
Values(h) == [j \in Pars |-> Value(j, h[j])]
\* coordinates are fractions
Coord(space, j, m) ==
  IF space = "trafo" THEN <<m - cfg.mu[j], cfg.sg[j]>> ELSE <<Value(j, m), 1>>

Selected(mask) == {j \in Pars : mask[j]}
Rank(mask, j) == Cardinality({k \in Selected(mask) : k <= j})
Nth(mask, r) == CHOOSE j \in Selected(mask) : Rank(mask, j) = r
NF(mask) == Cardinality(Selected(mask))

\* the hypothesis that a point x of the fitted parameters stands for
Hypothesis(mask, x, seed) ==
  [j \in Pars |-> IF mask[j] THEN x[Rank(mask, j)] ELSE seed[j]]
Point(mask, h) == [r \in 1..NF(mask) |-> h[Nth(mask, r)]]

Dot(a, v) == Sum([j \in Pars |-> a[j] * v[j]])
\* the terms of the loss of one event, summed over the members
Terms(e, h) ==
  LET v == Values(h)
      K == Len(cfg.members)
  IN << Sum([k \in 1..K |-> LET d == Dot(cfg.members[k], v) - cfg.data[e]
                            IN d * d]),
        K * Dot(cfg.c, v),
        K * Sum([j \in Pars |-> cfg.q[j] * v[j] * v[j]]) >>
Loss(hs) == Sum([e \in DOMAIN hs |-> Sum(Terms(e, hs[e]))])

\* first derivatives of the terms with respect to the value of parameter j
DTerms(e, h, j) ==
  LET v == Values(h)
      K == Len(cfg.members)
  IN << Sum([k \in 1..K |-> 2 * (Dot(cfg.members[k], v) - cfg.data[e])
                              * cfg.members[k][j]]),
        K * cfg.c[j], K * 2 * cfg.q[j] * v[j] >>
\* and with respect to the coordinates, in units of ln 2 for logarithms
Slope(space, j, m) ==
  IF space = "trafo"
  THEN IF cfg.log[j] THEN cfg.sg[j] * Pow2(m) ELSE cfg.sg[j]
  ELSE 1
Gradient(space, mask, hs) ==
  [e \in DOMAIN hs |-> [r \in 1..NF(mask) |->
     LET j == Nth(mask, r)
     IN [i \in 1..3 |-> DTerms(e, hs[e], j)[i] * Slope(space, j, hs[e][j])]]]
\* second derivatives with respect to the values
D2(h, i, j) ==
  Sum([k \in DOMAIN cfg.members |-> 2 * cfg.members[k][i] * cfg.members[k][j]])
  + (IF i = j THEN Len(cfg.members) * 2 * cfg.q[i] ELSE 0)
\* in coordinates: slopes times D2, plus curvature of the coordinates
Hessian(space, mask, h) ==
  [r \in 1..NF(mask) |-> [s \in 1..NF(mask) |->
     LET i == Nth(mask, r)
         j == Nth(mask, s)
     IN Slope(space, i, h[i]) * Slope(space, j, h[j]) * D2(h, i, j) +
        (IF i = j /\ space = "trafo" /\ cfg.log[i]
         THEN cfg.sg[i] * Slope(space, i, h[i]) * Sum(DTerms(1, h, i))
         ELSE 0)]]

----------------------------------------------------------------------------
Eval(f, x) ==
  LET hs == [e \in 1..NE |-> Hypothesis(f.mask, x[e], f.seed[e])]
  IN [x |-> x, hyp |-> hs, loss |-> Loss(hs),
      terms |-> [e \in 1..NE |-> Terms(e, hs[e])],
      grad |-> Gradient(f.space, f.mask, hs),
      hess |-> IF NE = 1 THEN Hessian(f.space, f.mask, hs[1]) ELSE <<>>]
Start(f) == [e \in 1..NE |-> Point(f.mask, f.seed[e])]

\* seeds: the tensors of the data or results of earlier fits
SeedOf(src) == IF src[1] = "data" THEN cfg.seeds[src[2]]
               ELSE steps[src[2]].result
None == [kind |-> "none"]
Begin(kind, mask, space, src, bounds) ==
  /\ phase = "idle"
  /\ cur' = [kind |-> kind, mask |-> mask, space |-> space, src |-> src,
             seed |-> SeedOf(src), bounds |-> bounds, evals |-> <<>>]
  /\ phase' = "fit"
  /\ UNCHANGED <<cfg, steps>>
Ask(x) ==
  /\ phase = "fit" /\ Len(cur.evals) < MaxAsks
  /\ cur' = [cur EXCEPT !.evals = Append(@, Eval(cur, x))]
  /\ UNCHANGED <<cfg, steps, phase>>
\* the optimizer reports one of the points; in a chain all points are reported
Report(i) ==
  /\ phase = "fit" /\ i \in DOMAIN cur.evals
  /\ steps' = Append(steps,
       [kind |-> cur.kind, mask |-> cur.mask, space |-> cur.space,
        src |-> cur.src, bounds |-> cur.bounds, evals |-> cur.evals,
        start |-> Start(cur), best |-> i,
        seed |-> cur.seed,
        result |-> cur.evals[i].hyp, loss_seed |-> Loss(cur.seed),
        loss |-> cur.evals[i].loss])
  /\ cur' = None /\ phase' = "idle"
  /\ UNCHANGED cfg
\* the loss is minimised again with two parameters held at given values
Profile(s, hold, dirs, xs, best) ==
  /\ phase = "idle" /\ NE = 1 /\ steps[s].mask = [j \in Pars |-> TRUE]
  /\ LET mask == [j \in Pars |-> j \notin {hold[1], hold[2]}]
         f(i) == [mask |-> mask, space |-> steps[s].space,
                  seed |-> << [steps[s].result[1] EXCEPT
                                ![hold[1]] = dirs[i][1],
                                ![hold[2]] = dirs[i][2]] >>]
         fits == [i \in DOMAIN dirs |->
                    [seed |-> f(i).seed, start |-> Start(f(i)),
                     evals |-> [k \in DOMAIN xs[i] |->
                                  Eval(f(i), <<xs[i][k]>>)]]]
     IN steps' = Append(steps,
          [kind |-> "profile", space |-> steps[s].space, of |-> s,
           mask |-> mask, hold |-> hold, dirs |-> dirs, best |-> best,
           fits |-> fits, evals |-> <<>>,
           result |-> steps[s].result, seed |-> steps[s].result,
           delta |-> [i \in DOMAIN dirs |->
                        fits[i].evals[best[i]].loss - steps[s].loss]])
  /\ UNCHANGED <<cfg, cur, phase>>
End == /\ phase = "idle" /\ Len(steps) > 0 /\ phase' = "done"
       /\ UNCHANGED <<cfg, steps, cur>>

----------------------------------------------------------------------------
(* Properties *)
\* parameters that are not fitted keep the seed, the others the chosen value
KeepsSeed ==
  \A s \in {i \in DOMAIN steps : steps[i].kind # "profile"} :
  \A e \in 1..NE : \A j \in Pars :
    LET f == steps[s]
    IN /\ ~f.mask[j] => /\ f.result[e][j] = f.seed[e][j]
                        /\ \A i \in DOMAIN f.evals :
                             f.evals[i].hyp[e][j] = f.seed[e][j]
       /\ f.mask[j] =>
            f.result[e][j] = f.evals[f.best].x[e][Rank(f.mask, j)]
HoldsDirection ==
  \A s \in {i \in DOMAIN steps : steps[i].kind = "profile"} :
  \A i \in DOMAIN steps[s].dirs : \A k \in DOMAIN steps[s].fits[i].evals :
    LET h == steps[s].fits[i].evals[k].hyp[1]
    IN <<h[steps[s].hold[1]], h[steps[s].hold[2]]>> = steps[s].dirs[i]
\* the starting point stands for the seed
StartIsSeed ==
  phase = "fit" => \A e \in 1..NE :
    Hypothesis(cur.mask, Start(cur)[e], cur.seed[e]) = cur.seed[e]
\* the gradient: differences of the (quadratic) loss
Shift(hs, e, j, d) == [hs EXCEPT ![e][j] = @ + d]
GradientIsSlope ==
  phase = "fit" => \A i \in DOMAIN cur.evals : \A e \in 1..NE :
    \A r \in 1..NF(cur.mask) :
      LET j == Nth(cur.mask, r)
          v == cur.evals[i]
      IN ~cfg.log[j] =>
           Sum(v.grad[e][r]) * 2 =
             (Loss(Shift(v.hyp, e, j, 1)) - Loss(Shift(v.hyp, e, j, -1)))
               * Slope(cur.space, j, 0)
HessianIsSlope ==
  (phase = "fit" /\ NE = 1) => \A i \in DOMAIN cur.evals :
    LET v == cur.evals[i]
        n == NF(cur.mask)
        plus(j) == Eval(cur, <<Point(cur.mask, [v.hyp[1] EXCEPT ![j] = @ + 1])>>)
        minus(j) == Eval(cur, <<Point(cur.mask, [v.hyp[1] EXCEPT ![j] = @ - 1])>>)
    IN \A r, s \in 1..n :
         LET i1 == Nth(cur.mask, r)
         IN /\ v.hess[r][s] = v.hess[s][r]
            /\ (~cfg.log[i1] =>
                 v.hess[r][s] * 2 =
                   (Sum(plus(i1).grad[1][s]) - Sum(minus(i1).grad[1][s]))
                     * Slope(cur.space, i1, 0))
\* neither space changes what is evaluated
SpaceIrrelevant ==
  phase = "fit" => \A i \in DOMAIN cur.evals :
    LET v == cur.evals[i]
    IN Eval([cur EXCEPT !.space = IF @ = "trafo" THEN "real" ELSE "trafo"],
            v.x).loss = v.loss

----------------------------------------------------------------------------
R(S) == RandomElement(S)
RSeq(n, S) == TLCEval([i \in 1..n |-> R(S)])
LogRange == 0..4
RawFor(l, j, S) == IF l[j] THEN R(LogRange) ELSE R(S)
RawVec(l, S) == TLCEval([j \in DOMAIN l |-> RawFor(l, j, S)])

Init0 ==
  /\ steps = <<>> /\ cur = None
  /\ IF Small
     THEN /\ phase = "idle"
          /\ \E l \in {<<FALSE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>} :
             \E d \in {<<1>>, <<0, 2>>} :
               cfg = [log |-> l, mu |-> <<0, 1>>, sg |-> <<2, 1>>,
                      members |-> << <<1, 2>> >>, c |-> <<0, 1>>,
                      q |-> <<1, 1>>, data |-> d,
                      seeds |-> << [e \in DOMAIN d |-> <<e, 1>>],
                                   [e \in DOMAIN d |-> <<0, e>>] >>]
     ELSE /\ phase = "setup"
          /\ cfg = [log |-> <<FALSE>>, mu |-> <<0>>, sg |-> <<1>>,
                    members |-> << <<1>> >>, c |-> <<0>>, q |-> <<0>>,
                    data |-> <<0>>, seeds |-> << << <<0>> >> >>]
Setup ==
  /\ phase = "setup" /\ phase' = "idle"
  /\ \E n \in {R(1..MaxPar)} : \E k \in {R(1..MaxMembers)} :
     \E ne \in {IF R(1..4) = 1 THEN R(1..MaxEvents) ELSE 1} :
     \E l \in {IF R(1..3) = 1 THEN TLCEval([j \in 1..n |-> FALSE])
               ELSE RSeq(n, BOOLEAN)} :
     \E m \in {TLCEval([i \in 1..k |-> RSeq(n, -3..3)])} :
     \E s \in {TLCEval([i \in 1..2 |-> TLCEval([e \in 1..ne |->
                  RawVec(l, -6..6)])])} :
       cfg' = [log |-> l, mu |-> RSeq(n, -3..3), sg |-> RSeq(n, 1..3),
               members |-> m, c |-> RSeq(n, -4..4), q |-> RSeq(n, 1..3),
               data |-> RSeq(ne, -9..9), seeds |-> s]
  /\ UNCHANGED <<steps, cur>>

\* bounds are raw numbers; "none", and "edge" where a logarithm diverges
RBound(l, low) == LET k == R(1..4)
             IN IF k = 1 THEN <<"none", 0>>
                ELSE IF k = 2 /\ l /\ low THEN <<"edge", 0>>
                ELSE <<"at", IF l THEN R(LogRange) ELSE R(-9..9)>>
RBounds == TLCEval([j \in Pars |-> TLCEval(<<TLCEval(RBound(cfg.log[j], TRUE)),
                                             TLCEval(RBound(cfg.log[j], FALSE))>>)])
Kinds == {"direct", "tfp", "shgo", "spherical", "mcmc"}
Masks == {m \in [Pars -> BOOLEAN] : \E j \in Pars : m[j]}
All == [j \in Pars |-> TRUE]
\* what the interfaces support
Feasible(kind, mask, space) ==
  CASE kind \in {"scipy", "direct"} -> TRUE
    [] kind = "tfp" -> NE = 1
    [] kind = "shgo" -> NE = 1 /\ space = "trafo"
    [] kind = "spherical" -> NE = 1 /\ NP > 1
    [] kind = "mcmc" -> NE = 1 /\ mask = All /\ Len(steps) > 0 /\
                        (space = "trafo" => \A j \in Pars : ~cfg.log[j])
Sources == {<<"data", 1>>, <<"data", 2>>} \cup
           {<<"step", i>> : i \in {x \in DOMAIN steps :
                                     steps[x].kind \notin {"mcmc", "profile"}}}
SomeX(mask) ==
  TLCEval([e \in 1..NE |-> TLCEval([r \in 1..NF(mask) |->
             RawFor(cfg.log, Nth(mask, r), -6..6)])])
NextRandom ==
  \/ Setup
  \/ /\ phase = "idle" /\ Len(steps) < MaxSteps
     /\ \E kind \in {IF R(1..2) = 1 THEN "scipy" ELSE R(Kinds)} : \E space \in {R({"trafo", "real"})} :
        \E mask \in {IF R(1..5) < 3 THEN All ELSE R(Masks)} :
        \E src \in {R(Sources)} : \E b \in {R(1..3)} :
        \E bs \in {RBounds} :
          LET k == IF Feasible(kind, mask, space) THEN kind ELSE "scipy"
          IN Begin(k, mask, space,
                   IF k = "mcmc" /\ src[1] = "data"
                   THEN CHOOSE s \in Sources : s[1] = "step" ELSE src,
                   IF b = 1 /\ k \in {"scipy", "direct"} THEN bs ELSE <<>>)
  \/ /\ phase = "fit" /\ Len(cur.evals) < MaxAsks
     /\ \E x \in {SomeX(cur.mask)} : Ask(x)
  \/ /\ phase = "fit" /\ Len(cur.evals) = MaxAsks
     /\ \E i \in {R(DOMAIN cur.evals)} : Report(i)
  \/ /\ phase = "idle" /\ Len(steps) \in 1..(MaxSteps - 1) /\ NE = 1 /\ NP > 2
     /\ steps[Len(steps)].kind = "scipy" /\ steps[Len(steps)].mask = All
     /\ \E hold \in {R({h \in Pars \X Pars : h[1] # h[2]})} :
        \E n \in {R(1..3)} :
        \E dirs \in {TLCEval([i \in 1..n |-> TLCEval(
             <<RawFor(cfg.log, hold[1], -6..6),
               RawFor(cfg.log, hold[2], -6..6)>>)])} :
        \E xs \in {TLCEval([i \in 1..n |-> TLCEval([k \in 1..2 |->
             SomeX([j \in Pars |-> j \notin {hold[1], hold[2]}])[1]])])} :
        \E best \in {RSeq(n, 1..2)} :
          Profile(Len(steps), hold, dirs, xs, best)
  \/ Len(steps) = MaxSteps /\ End
NextSmall ==
  \/ /\ phase = "idle" /\ Len(steps) < MaxSteps
     /\ \E space \in {"trafo", "real"} : \E mask \in Masks :
        \E src \in Sources : Begin("scipy", mask, space, src, <<>>)
  \/ /\ phase = "fit"
     /\ \E v \in [1..NF(cur.mask) -> 0..1] :
          Ask([e \in 1..NE |-> [r \in 1..NF(cur.mask) |->
                IF e = 2 THEN 1 - v[r] ELSE v[r]]])
  \/ \E i \in 1..MaxAsks : Report(i)
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init0 /\ [][Next]_vars

Frac(space, hs) == [e \in DOMAIN hs |-> [j \in Pars |->
                      Coord(space, j, hs[e][j])]]
Emit == phase = "done" =>
  PrintT(ToJson([cfg |-> cfg, steps |-> steps]))
================================================================================
