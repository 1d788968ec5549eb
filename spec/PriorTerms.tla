------------------------------- MODULE PriorTerms ------------------------------
(* Penalties for systematic parameters (egenerator/loss/snowstorm.py).

   The hypothesis of an event has named parameters in the order `names`.
   "U1", "U2", .. have a flat prior between two limits with an exponential
   penalty outside, "F1", .. "Fk" (next to each other) have Gaussian priors
   with given widths and "O1", .. have none.  Losses are expression trees as
   in LossTerms; parameters are in tenths.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEvents, MaxUniform, MaxFourier

VARIABLES names,   \* order of the parameters
          limits,  \* of each uniform parameter, in tenths
          sigmas,  \* of each Gaussian parameter, in tenths
          pars     \* events: values in order of names
vars == <<names, limits, sigmas, pars>>

Q(n, d) == <<"q", n, d>>
Zero == Q(0, 1)
Add(a, b) == IF a = Zero THEN b ELSE IF b = Zero THEN a ELSE <<"+", a, b>>
Mul(a, b) == <<"*", a, b>>
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))

U(i) == <<"U", i>>
F(i) == <<"F", i>>
Pos(ns, x) == CHOOSE j \in DOMAIN ns : ns[j] = x

\* zero inside the limits, growing outside
Excess(n, d) == <<"-", <<"exp", Mul(Q(10, 1), Add(Q(n, d), Q(1, 1)))>>,
                  <<"exp", Q(10, 1)>>>>
Uniform(v, l) == IF v > l[2] THEN Excess(v - l[2], l[2] - l[1])
                 ELSE IF v < l[1] THEN Excess(l[1] - v, l[2] - l[1])
                 ELSE Zero
\* negative logarithm of the Gaussian density
Gauss(v, s) ==
  Add(Add(Mul(Q(1, 2), Q(v * v, s * s)), <<"log", Q(s, 10)>>),
      <<"log", <<"sqrt", Mul(Q(2, 1), <<"pi">>)>>>>)

UniformTerm(ns, p, i) == Uniform(p[Pos(ns, U(i))], limits[i])
GaussTerm(ns, p, i) == Gauss(p[Pos(ns, F(i))], sigmas[i])
EventLoss(ns, p) ==
  Add(SumSeq([i \in DOMAIN limits |-> UniformTerm(ns, p, i)]),
      SumSeq([i \in DOMAIN sigmas |-> GaussTerm(ns, p, i)]))
Total(ns, ps) == SumSeq([e \in DOMAIN ps |-> EventLoss(ns, ps[e])])

----------------------------------------------------------------------------
\* neither the order of the parameters nor parameters without prior matter
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
NamesOnly ==
  \A e \in DOMAIN pars :
    EventLoss(names, pars[e]) = EventLoss(Reverse(names), Reverse(pars[e]))
NoPrior ==
  \A e \in DOMAIN pars : \A j \in DOMAIN names :
    names[j][1] = "O" =>
      EventLoss(names, pars[e]) =
        EventLoss(names, [pars[e] EXCEPT ![j] = @ + 7])
\* no penalty within the limits, including the limits
Flat == \A i \in DOMAIN limits :
          \A v \in (limits[i][1] - 2)..(limits[i][2] + 2) :
            (Uniform(v, limits[i]) = Zero) =
              (limits[i][1] <= v /\ v <= limits[i][2])

----------------------------------------------------------------------------
Permute(s) == \* random order
  LET RECURSIVE P(_)
      P(r) == IF r = {} THEN <<>>
              ELSE LET x == TLCEval(RandomElement(r))
                   IN <<x>> \o P(r \ {x})
  IN TLCEval(P(DOMAIN s))
Init == /\ names = <<U(1)>> /\ limits = << <<0, 10>> >> /\ sigmas = <<>>
        /\ pars = << <<11>> >>
Next ==
  \E nu \in {RandomElement(0..MaxUniform)} :
  \E nf \in {RandomElement((IF nu = 0 THEN 1 ELSE 0)..MaxFourier)} :
  \E no \in {RandomElement(0..2)} :
  \E at \in {RandomElement(0..(nu + no))} :
  \E ord \in {Permute([i \in 1..(nu + no) |-> i])} :
  \E n \in {RandomElement(1..MaxEvents)} :
    LET rest == [j \in 1..(nu + no) |->
                   IF ord[j] <= nu THEN U(ord[j])
                   ELSE <<"O", ord[j] - nu>>]
        fs == [i \in 1..nf |-> F(i)]
    IN /\ names' = SubSeq(rest, 1, at) \o fs \o
                   SubSeq(rest, at + 1, nu + no)
       /\ \E l \in {TLCEval([i \in 1..nu |->
                      LET a == RandomElement(-20..20)
                      IN TLCEval(<<a, a + RandomElement(1..20)>>)])} :
            limits' = [i \in 1..nu |-> <<l[i][1],
                         IF l[i][2] <= l[i][1] THEN l[i][1] + 1
                         ELSE l[i][2]>>]
       /\ \E s \in {TLCEval([i \in 1..nf |-> RandomElement(1..25)])} :
            sigmas' = s
       /\ \E p \in {TLCEval([e \in 1..n |-> TLCEval(
                      [j \in 1..(nu + no + nf) |->
                         RandomElement(-15..25)])])} :
            pars' = p
Spec == Init /\ [][Next]_vars

Emit ==
  PrintT(ToJson(
    [names |-> names, limits |-> limits, sigmas |-> sigmas, pars |-> pars,
     event |-> [e \in DOMAIN pars |-> EventLoss(names, pars[e])],
     total |-> Total(names, pars)]))
================================================================================
