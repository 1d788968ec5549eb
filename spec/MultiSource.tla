------------------------------ MODULE MultiSource ------------------------------
(* A hypothesis made of several independent sources, each evaluated by one of
   a few base models (egenerator/model/multi_source).

   names are ranks in alphabetical order; `listed` is the order in which the
   sources are listed in the configuration, which must not matter.  The
   predictions of the base models are arbitrary functions of the parameters,
   here integer valued so that real models computing the same can be compared
   exactly:  base "n" has no parameters (like a noise model), "a" two, "b"
   three, and "m" is itself a combination of an "a" and a "b".               *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS MaxSources, NumEvents, Values, Simulated

VARIABLES listed,   \* sequence of [name, base]
          pars,     \* per event the values of all parameters (long enough)
          pulses    \* sequence of [e, d, t]
vars == <<listed, pars, pulses>>

BaseSet == {"n", "a", "b", "m"}
NP(b) == CASE b = "n" -> 0 [] b = "a" -> 2 [] b = "b" -> 3 [] b = "m" -> 5
K(b) == CASE b = "n" -> 1 [] b = "a" -> 2 [] b = "b" -> 7 [] b = "m" -> 0
Doms == 1..3
MaxPars == 5 * MaxSources
Times == 0..3

Range(s) == {s[i] : i \in DOMAIN s}
Names == {l.name : l \in Range(listed)}
BaseOf(n) == (CHOOSE l \in Range(listed) : l.name = n).base

\* positions of the parameters: sources in alphabetical order
RECURSIVE SumNP(_)
SumNP(S) == IF S = {} THEN 0
            ELSE LET n == CHOOSE x \in S : TRUE
                 IN NP(BaseOf(n)) + SumNP(S \ {n})
First(n) == SumNP({x \in Names : x < n})
Total == SumNP(Names)
Own(n, e) == SubSeq(pars[e], First(n) + 1, First(n) + NP(BaseOf(n)))
\* which parameter is at position i: the source and the number of its own
At(i) == LET n == CHOOSE x \in Names : First(x) < i /\
                                       i <= First(x) + NP(BaseOf(x))
         IN [name |-> n, var |-> i - First(n)]

----------------------------------------------------------------------------
\* the base models
RECURSIVE Weighted(_, _)
Weighted(p, j) == IF j = 0 THEN 0 ELSE j * p[j] + Weighted(p, j - 1)
RECURSIVE Charge(_, _, _)
Charge(b, d, p) ==
  IF b = "m" THEN Charge("a", d, SubSeq(p, 1, 2))
                  + Charge("b", d, SubSeq(p, 3, 5))
  ELSE K(b) + d + d * Weighted(p, Len(p))
RECURSIVE Variance(_, _, _)
Variance(b, d, p) ==
  IF b = "m" THEN Variance("a", d, SubSeq(p, 1, 2))
                  + Variance("b", d, SubSeq(p, 3, 5))
  ELSE 3 * K(b) + Weighted(p, Len(p))
RECURSIVE Pdf(_, _, _, _)
Pdf(b, d, t, p) ==
  IF b = "m"
  THEN LET ca == Charge("a", d, SubSeq(p, 1, 2))
           cb == Charge("b", d, SubSeq(p, 3, 5))
       IN R(ca * Pdf("a", d, t, SubSeq(p, 1, 2))[1]
              + cb * Pdf("b", d, t, SubSeq(p, 3, 5))[1], ca + cb)
  ELSE RI(K(b) + t * (1 + Weighted(p, Len(p))))
RECURSIVE Cdf(_, _, _)
Cdf(b, d, p) ==
  IF b = "m"
  THEN LET ca == Charge("a", d, SubSeq(p, 1, 2))
           cb == Charge("b", d, SubSeq(p, 3, 5))
       IN R(ca * Cdf("a", d, SubSeq(p, 1, 2))[1]
              + cb * Cdf("b", d, SubSeq(p, 3, 5))[1], ca + cb)
  ELSE RI(K(b) + 2 * d + Weighted(p, Len(p)))

----------------------------------------------------------------------------
\* the superposition
SumOver(f(_), S) ==
  LET RECURSIVE F(_)
      F(T) == IF T = {} THEN RI(0)
              ELSE LET n == CHOOSE x \in T : TRUE
                   IN RAdd(f(n), F(T \ {n}))
  IN F(S)
C(n, e, d) == RI(Charge(BaseOf(n), d, Own(n, e)))
TotalCharge(S, e, d) == SumOver(LAMBDA n : C(n, e, d), S)
TotalVariance(S, e, d) ==
  SumOver(LAMBDA n : RI(Variance(BaseOf(n), d, Own(n, e))), S)
TotalPdf(S, e, d, t) ==
  RDiv(SumOver(LAMBDA n : RMul(C(n, e, d),
                               Pdf(BaseOf(n), d, t, Own(n, e))), S),
       TotalCharge(S, e, d))
TotalCdf(S, e, d) ==
  RDiv(SumOver(LAMBDA n : RMul(C(n, e, d),
                               Cdf(BaseOf(n), d, Own(n, e))), S),
       TotalCharge(S, e, d))

\* splitting the sources in two groups: charges add, likelihoods mix
Additive ==
  \A S \in SUBSET Names : S # {} /\ S # Names =>
    \A e \in 1..NumEvents : \A d \in Doms :
      LET a == TotalCharge(S, e, d)
          b == TotalCharge(Names \ S, e, d)
      IN /\ TotalCharge(Names, e, d) = RAdd(a, b)
         /\ RMul(TotalPdf(Names, e, d, 1), RAdd(a, b)) =
              RAdd(RMul(a, TotalPdf(S, e, d, 1)),
                   RMul(b, TotalPdf(Names \ S, e, d, 1)))
\* positions and names translate one-to-one
OneToOne ==
  /\ \A i, j \in 1..Total : At(i) = At(j) => i = j
  /\ \A n \in Names : \A v \in 1..NP(BaseOf(n)) :
       \E i \in 1..Total : At(i) = [name |-> n, var |-> v]
\* a source depends on its own parameters only
Separate ==
  \A n \in Names : \A i \in 1..Total :
    At(i).name # n =>
      LET p2 == [pars EXCEPT ![1][i] = @ + 5]
      IN Own(n, 1) = SubSeq(p2[1], First(n) + 1,
                            First(n) + NP(BaseOf(n)))

----------------------------------------------------------------------------
Orders(S) == {s \in [1..Cardinality(S) -> S] :
                \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Mapping(s, f) == [i \in DOMAIN s |-> [name |-> s[i], base |-> f[s[i]]]]
SomePulses == <<[e |-> 1, d |-> 1, t |-> 2]>>

Init ==
  IF Simulated
  THEN /\ listed = <<[name |-> 1, base |-> "a"]>>
       /\ pars = [e \in 1..NumEvents |-> [i \in 1..MaxPars |-> i]]
       /\ pulses = SomePulses
  ELSE /\ \E k \in 1..MaxSources : \E s \in Orders(1..k) :
            \E f \in [1..k -> BaseSet] : listed = Mapping(s, f)
       /\ pars = [e \in 1..NumEvents |->
                    [i \in 1..MaxPars |-> (i * i + 3 * e) % 5]]
       /\ pulses = <<[e |-> NumEvents, d |-> 3, t |-> 3],
                     [e |-> 1, d |-> 1, t |-> 0],
                     [e |-> 1, d |-> 2, t |-> 2],
                     [e |-> NumEvents, d |-> 3, t |-> 1]>>
Next ==
  IF Simulated
  THEN /\ \E k \in {RandomElement(1..MaxSources)} :
            \E s \in {RandomElement(Orders(1..k))} :
              \E f \in {TLCEval([i \in 1..k |-> RandomElement(BaseSet)])} :
                listed' = Mapping(s, f)
       /\ \E p \in {TLCEval([e \in 1..NumEvents |-> TLCEval(
                       [i \in 1..MaxPars |-> RandomElement(Values)])])} :
            pars' = p
       /\ \E m \in {RandomElement(0..4)} :
            \E q \in {TLCEval([i \in 1..m |->
                        TLCEval([e |-> RandomElement(1..NumEvents),
                                 d |-> RandomElement(Doms),
                                 t |-> RandomElement(Times)])])} :
              pulses' = q
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars

Emit ==
  PrintT(ToJson(
    [listed |-> listed, total |-> Total,
     at |-> [i \in 1..Total |-> At(i)],
     pars |-> [e \in 1..NumEvents |-> SubSeq(pars[e], 1, Total)],
     pulses |-> pulses,
     charge |-> [e \in 1..NumEvents |-> [d \in Doms |->
                   TotalCharge(Names, e, d)]],
     variance |-> [e \in 1..NumEvents |-> [d \in Doms |->
                   TotalVariance(Names, e, d)]],
     cdf |-> [e \in 1..NumEvents |-> [d \in Doms |->
                   TotalCdf(Names, e, d)]],
     pdf |-> [i \in DOMAIN pulses |->
                TotalPdf(Names, pulses[i].e, pulses[i].d, pulses[i].t)]]))
================================================================================
