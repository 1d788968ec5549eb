------------------------------ MODULE TrainLoop ------------------------------
(* Training of an ensemble (egenerator/manager/base.py).

   The loss of model m for a batch b is
       sum_i c[m][i] * w[m][i]    over elements of "lin" variables
     + sum_i c[m][i] * w[m][i]^2  over elements of "quad" variables
     + d[m]
   and variables of kind "none" do not contribute.  Each model is regularised
   with l1 * sum |w| + l2/2 * sum w^2.  Weights are integers, and the optimizer
   is gradient descent with momentum.  Coefficients may be undefined.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxModels, MaxVars, MaxIter, MaxTrains, Small

Nan == 9999
Inf == 9998

VARIABLES kinds,   \* kinds[m] : sequence of [kind, size] of variables
          w,       \* weights: w[m][j] of all elements
          vel,     \* their velocities
          opt,     \* settings of the current training
          phase,   \* what comes next
          it,      \* iterations of this training
          done,    \* steps performed in this training
          stp,     \* iterations counted by the models
          saved,   \* last checkpoint: [w, stp]
          ckpt,    \* protected/latest checkpoints of this training
          trains,  \* number of trainings
          log      \* what happened
vars == <<kinds, w, vel, opt, phase, it, done, stp, saved, ckpt, trains, log>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

\* kind of every element of a model
RECURSIVE Elements(_)
Elements(v) == IF v = <<>> THEN <<>>
               ELSE [i \in 1..Head(v).size |-> Head(v).kind]
                    \o Elements(Tail(v))
Kind(m) == Elements(kinds[m])

Undefined(x) == x \in {Nan, Inf}
\* gradient of the loss of one model for one element
Grad1(k, c, x) ==
  IF k = "none" THEN 0
  ELSE IF c = Nan THEN Nan
  ELSE IF c = Inf THEN (IF k = "quad" /\ x = 0 THEN Nan ELSE Inf)
  ELSE IF k = "lin" THEN c ELSE 2 * c * x
WithReg(g, o, x) ==
  IF Undefined(g) THEN g ELSE g + o.l1 * Sgn(x) + o.l2 * x
Gradient(o, b) ==
  [m \in DOMAIN w |-> [j \in DOMAIN w[m] |->
     WithReg(Grad1(Kind(m)[j], b.c[m][j], w[m][j]), o, w[m][j])]]
\* variables without any gradient are left alone
HasGrad(o, m, j) == Kind(m)[j] # "none" \/ o.l1 > 0 \/ o.l2 > 0
AnyGrad(o) == \E m \in DOMAIN w : \E j \in DOMAIN w[m] : HasGrad(o, m, j)
Cleared(o, g) ==
  IF o.rm = 2
  THEN [m \in DOMAIN g |-> [j \in DOMAIN g[m] |->
          IF g[m][j] = Nan THEN 0 ELSE g[m][j]]]
  ELSE g
Finite(g) == \A m \in DOMAIN g : \A j \in DOMAIN g[m] : ~Undefined(g[m][j])
Norm2(g) == Sum([m \in DOMAIN g |->
                   Sum([j \in DOMAIN g[m] |-> g[m][j] * g[m][j]])])
Root(n) == CHOOSE r \in 0..300 : r * r <= n /\ n < (r + 1) * (r + 1)
\* only clipping with integer results is described
Modest(g) == \A m \in DOMAIN g : \A j \in DOMAIN g[m] : Abs(g[m][j]) < 1000
Describable(o, g) ==
  IF o.clip = 0 THEN TRUE
  ELSE IF ~Modest(g) THEN FALSE
  ELSE IF Norm2(g) <= o.clip * o.clip THEN TRUE
  ELSE IF Norm2(g) > 90000 THEN FALSE
  ELSE LET n2 == Norm2(g)
           n  == Root(n2)
       IN /\ n * n = n2
          /\ \A m \in DOMAIN g : \A j \in DOMAIN g[m] :
               (g[m][j] * o.clip) % n = 0
          /\ (o.l1 = 0 \/ n \in {1, 2, 4, 8, 16, 32})
Div(a, n) == IF a < 0 THEN -((-a) \div n) ELSE a \div n
Clipped(o, g) ==
  IF o.clip = 0 \/ Norm2(g) <= o.clip * o.clip THEN g
  ELSE [m \in DOMAIN g |-> [j \in DOMAIN g[m] |->
          Div(g[m][j] * o.clip, Root(Norm2(g)))]]
\* losses of a batch of finite coefficients, doubled
Term(k, c, x) == IF k = "none" THEN 0 ELSE IF k = "lin" THEN c * x
                 ELSE c * x * x
Loss2(m, b) ==
  IF b.d[m] = Nan THEN Nan
  ELSE 2 * b.d[m] + 2 * Sum([j \in DOMAIN w[m] |->
                               Term(Kind(m)[j], b.c[m][j], w[m][j])])
Reg2(o, m) == 2 * o.l1 * Sum([j \in DOMAIN w[m] |-> Abs(w[m][j])])
              + o.l2 * Sum([j \in DOMAIN w[m] |-> w[m][j] * w[m][j]])
Losses(b) == [m \in DOMAIN w |-> Loss2(m, b)]

Log(r) == log' = Append(log, r)
----------------------------------------------------------------------------
Zero == [m \in DOMAIN w |-> [j \in DOMAIN w[m] |-> 0]]
\* a new training starts with a new optimizer and a protected checkpoint
Train(o) ==
  /\ phase = "idle" /\ trains < MaxTrains
  /\ trains' = trains + 1 /\ opt' = o /\ it' = 0 /\ done' = 0
  /\ vel' = Zero
  /\ saved' = [w |-> w, stp |-> stp]
  /\ ckpt' = <<[n |-> 0, prot |-> TRUE]>>
  /\ phase' = IF o.iter = 0 THEN "final" ELSE "step"
  /\ Log([ev |-> "train", opt |-> o])
  /\ UNCHANGED <<kinds, w, stp>>

Fail(why, b) ==
  /\ phase' = "idle"
  /\ Log([b |-> b, ev |-> "fail", why |-> why, w |-> w, n |-> ckpt[Len(ckpt)].n,
          ckpt |-> ckpt, saved |-> saved.w, stp |-> stp'])

Step(b) ==
  /\ phase = "step"
  /\ stp' = stp + 1
  /\ LET g == TLCEval(Cleared(opt, Gradient(opt, b)))
     IN IF ~AnyGrad(opt) \/ ~Finite(g)
        THEN /\ Fail(IF AnyGrad(opt) THEN "gradient" ELSE "nothing", b)
             /\ UNCHANGED <<w, vel, done>>
        ELSE /\ Describable(opt, g) = TRUE
             /\ LET h == TLCEval(Clipped(opt, g))
                    v == TLCEval([m \in DOMAIN w |-> [j \in DOMAIN w[m] |->
                           IF HasGrad(opt, m, j)
                           THEN opt.mom * vel[m][j] - opt.lr * h[m][j]
                           ELSE vel[m][j]]])
                IN /\ vel' = v
                   /\ w' = [m \in DOMAIN w |-> [j \in DOMAIN w[m] |->
                              IF HasGrad(opt, m, j) THEN w[m][j] + v[m][j]
                              ELSE w[m][j]]]
             /\ done' = done + 1 /\ phase' = "val"
             /\ Log([ev |-> "step", b |-> b, w |-> w'])
  /\ UNCHANGED <<kinds, opt, it, saved, ckpt, trains>>
\* clipping with any result: described by the gradient and its norm
LastStep(b) ==
  /\ phase = "step" /\ trains = MaxTrains /\ it + 1 = opt.iter
  /\ it % opt.V # 0
  /\ LET g == TLCEval(Cleared(opt, Gradient(opt, b)))
     IN /\ AnyGrad(opt) /\ Finite(g)
        /\ ~Describable(opt, g) /\ Modest(g)
        /\ Log([ev |-> "clip", b |-> b, g |-> g, n2 |-> Norm2(g), vel |-> vel,
                has |-> [m \in DOMAIN w |-> [j \in DOMAIN w[m] |->
                           HasGrad(opt, m, j)]]])
  /\ stp' = stp + 1 /\ done' = done + 1 /\ phase' = "eval"
  /\ UNCHANGED <<kinds, w, vel, opt, it, saved, ckpt, trains>>

Validate(bt, bv) ==
  /\ phase = "val" /\ it % opt.V = 0
  /\ LET lt == Losses(bt)
         lv == Losses(bv)
         r  == [ev |-> "val", bt |-> bt, bv |-> bv, lt |-> lt, lv |-> lv,
                reg |-> [m \in DOMAIN w |-> Reg2(opt, m)], stp |-> stp]
     IN IF Nan \in Range(lt) \cup Range(lv)
        THEN /\ phase' = "idle"
             /\ log' = log \o <<r, [ev |-> "fail", why |-> "loss", w |-> w,
                                    n |-> ckpt[Len(ckpt)].n, ckpt |-> ckpt,
                                    saved |-> saved.w, stp |-> stp]>>
        ELSE phase' = "eval" /\ Log(r)
  /\ UNCHANGED <<kinds, w, vel, opt, it, done, stp, saved, ckpt, trains>>
SkipVal ==
  /\ phase = "val" /\ it % opt.V # 0 /\ phase' = "eval"
  /\ UNCHANGED <<kinds, w, vel, opt, it, done, stp, saved, ckpt, trains, log>>
Evaluate(b) ==
  /\ phase = "eval" /\ opt.ev /\ it % opt.E = 0 /\ phase' = "save"
  /\ Log([ev |-> "eval", b |-> b, it |-> it])
  /\ UNCHANGED <<kinds, w, vel, opt, it, done, stp, saved, ckpt, trains>>
SkipEval ==
  /\ phase = "eval" /\ ~(opt.ev /\ it % opt.E = 0) /\ phase' = "save"
  /\ UNCHANGED <<kinds, w, vel, opt, it, done, stp, saved, ckpt, trains, log>>
Save ==
  /\ phase = "save"
  /\ IF it % opt.S = 0 /\ it # 0
     THEN /\ saved' = [w |-> w, stp |-> stp]
          /\ ckpt' = Append(ckpt, [n |-> done, prot |-> FALSE])
          /\ Log([ev |-> "ckpt", n |-> done])
     ELSE UNCHANGED <<saved, ckpt, log>>
  /\ it' = it + 1
  /\ phase' = IF it + 1 = opt.iter THEN "final" ELSE "step"
  /\ UNCHANGED <<kinds, w, vel, opt, done, stp, trains>>
Final ==
  /\ phase = "final" /\ phase' = "idle"
  /\ saved' = [w |-> w, stp |-> stp]
  /\ ckpt' = Append(ckpt, [n |-> done, prot |-> TRUE])
  /\ Log([ev |-> "end", w |-> w, n |-> done, ckpt |-> ckpt', saved |-> w,
          stp |-> stp])
  /\ UNCHANGED <<kinds, w, vel, opt, it, done, stp, trains>>
\* a new manager from the files
Reload ==
  /\ phase = "idle" /\ 0 < trains /\ trains < MaxTrains
  /\ log[Len(log)].ev # "reload"
  /\ w' = saved.w /\ stp' = saved.stp
  /\ Log([ev |-> "reload", w |-> w', stp |-> stp'])
  /\ UNCHANGED <<kinds, vel, opt, phase, it, done, saved, ckpt, trains>>

----------------------------------------------------------------------------
\* as many steps as configured, and the last checkpoint tells
Counted == phase = "idle" /\ trains > 0 /\ log[Len(log)].ev = "end" =>
             /\ done = opt.iter /\ ckpt[Len(ckpt)].n = done
             /\ saved.w = w
NeverAhead == (phase # "idle" => done <= opt.iter) /\
              \A i \in DOMAIN ckpt : ckpt[i].n <= done
\* only steps change weights, and nothing without a gradient
OnlySteps == [][w' # w => phase \in {"init", "step"} \/ log'[Len(log')].ev = "reload"]_vars
Untouched == [][\A m \in DOMAIN w : \A j \in DOMAIN w[m] :
                  phase = "step" /\ ~HasGrad(opt, m, j)
                     => w'[m][j] = w[m][j]]_vars
FailKeeps == [][phase = "step" /\ phase' = "idle" => w' = w]_vars

R(S) == RandomElement(S)
Sizes(v) == Sum([i \in DOMAIN v |-> v[i].size])
RECURSIVE RSeq(_, _)
RSeq(S, n) == IF n = 0 THEN <<>> ELSE Append(RSeq(S, n - 1), R(S))
RBatch(cs, ds) ==
  TLCEval([c |-> [m \in DOMAIN w |-> RSeq(cs, Len(w[m]))],
           d |-> RSeq(ds, Len(w))])
\* undefined values are rare
Cs(x) == IF x = 1 THEN {-2, 0, 1, Nan} ELSE IF x = 2 THEN {0, 1, 2, 3, Inf}
         ELSE IF x <= 6 THEN {0, 0, 3} ELSE {-2, -1, 0, 1, 2}
Ds(x) == IF x = 3 THEN {0, 1, Nan} ELSE {-1, 0, 5}
Opts == [iter : {0, 1, 2}, V : {1, 2}, E : {1}, S : {1, 2}, l1 : {0, 1},
         l2 : {0}, clip : {0}, rm : {0, 2}, lr : {1}, mom : {0}, ev : {TRUE}]
\* z is a part of the state: constant expressions are evaluated only once
RS(S, z) == RandomElement(IF z < 0 THEN {} ELSE S)
ROpt(z) ==
  TLCEval([iter |-> RS(0..MaxIter, z), V |-> RS(1..3, z), E |-> RS(1..3, z),
           S |-> RS(1..4, z), l1 |-> RS({0, 1, 2}, z),
           l2 |-> RS({0, 1, 2}, z), clip |-> RS({0, 1, 2, 4}, z),
           rm |-> RS(0..2, z), lr |-> RS(1..2, z), mom |-> RS(0..1, z),
           ev |-> RS(BOOLEAN, z)])
\* mostly no regularisation of absolute values
ROpt2(z, x) == LET o == ROpt(z)
               IN IF x <= 5 THEN TLCEval([o EXCEPT !.l1 = 0])
                  ELSE IF x = 6 THEN TLCEval([o EXCEPT !.l1 = 0, !.l2 = 0])
                  ELSE o
RKinds(z) ==
  TLCEval([m \in 1..RS(1..MaxModels, z) |->
            [v \in 1..RS(1..MaxVars, z) |->
              [kind |-> RS({"lin", "lin2", "quad", "none"}, z),
               size |-> RS(1..2, z)]]])
Fix(k) == [m \in DOMAIN k |-> [v \in DOMAIN k[m] |->
             [k[m][v] EXCEPT !.kind = IF @ = "lin2" THEN "lin" ELSE @]]]

KindsSmall == {<< <<[kind |-> a, size |-> 1], [kind |-> b, size |-> 1]>> >> :
                 a \in {"lin", "none"}, b \in {"quad", "none"}}
Begin(k) ==
  /\ kinds = k
  /\ vel = <<>> /\ opt = [iter |-> 0] /\ phase = "init" /\ it = 0 /\ done = 0
  /\ stp = 0 /\ saved = <<>> /\ ckpt = <<>> /\ trains = 0 /\ log = <<>>
  /\ w = <<>>
Init == IF Small THEN \E k \in KindsSmall : Begin(k) ELSE Begin(<<>>)
Setup ==
  /\ phase = "init" /\ phase' = "idle"
  /\ IF Small
     THEN /\ w' = << <<1, 2>> >> /\ kinds' = kinds
     ELSE \E k \in {RKinds(trains)} :
            /\ kinds' = TLCEval(Fix(k))
            /\ w' = TLCEval([m \in DOMAIN k |-> RSeq(-3..3, Sizes(k[m]))])
  /\ vel' = w'
  /\ Log([ev |-> "init", w |-> w', kinds |-> kinds'])
  /\ UNCHANGED <<opt, it, done, stp, saved, ckpt, trains>>
SmallBatches(S) == {[c |-> << <<a, b>> >>, d |-> <<0>>] : a, b \in S}
NextSmall ==
  \/ Setup
  \/ \E o \in Opts : Train(o)
  \/ \E b \in SmallBatches({1, Nan}) \cup SmallBatches({-1, 1}) : Step(b)
  \/ \E e \in {0, Nan} :
       Validate([c |-> << <<1, 1>> >>, d |-> <<0>>],
                [c |-> << <<0, 1>> >>, d |-> <<e>>])
  \/ SkipVal \/ SkipEval \/ Save \/ Final
  \/ Evaluate([c |-> << <<1, 1>> >>, d |-> <<0>>])
Over == phase = "idle" /\ trains = MaxTrains
NextRandom ==
  \E x \in {R(1..12)} : \E y \in {R(1..30)} :
  \/ Setup
  \/ /\ phase = "idle" /\ (x > 4 \/ trains = 0)
     /\ \E o \in {IF trains > 0 /\ x > 9 THEN opt ELSE ROpt2(trains, x)} : Train(o)
  \/ /\ x <= 4 /\ Reload
  \/ /\ phase = "step" /\ \E b \in {RBatch(Cs(y), Ds(y))} : Step(b)
  \/ /\ phase = "step" /\ \E b \in {RBatch(Cs(y), Ds(y))} : LastStep(b)
  \/ /\ phase = "val" /\ it % opt.V = 0
     /\ \E bt \in {RBatch({-1, 0, 2}, Ds(y))} :
        \E bv \in {RBatch({-1, 0, 2}, Ds(IF y = 3 THEN 4 ELSE y - 1))} :
          Validate(bt, bv)
  \/ SkipVal \/ SkipEval \/ Save \/ Final
  \/ /\ phase = "eval" /\ \E b \in {RBatch({-1, 0, 2}, {0, 1})} : Evaluate(b)
  \/ ~Over /\ phase # "init" /\ UNCHANGED vars
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars
\* exact numbers of single precision
Bounded == \A m \in DOMAIN w : \A j \in DOMAIN w[m] : Abs(w[m][j]) < 3000
Emit == (Over => PrintT(ToJson(log)))
================================================================================
