------------------------------- MODULE LossTerms -------------------------------
(* The terms of the loss functions (egenerator/loss/default.py).

   A batch has NumEvents events and pulses.  Of the 5160 DOMs of an event all
   but Kinds-1 are alike: kind d stands for Count(d) DOMs, and pulses are on
   DOMs of the other kinds.  A loss is an expression over the data of the
   batch and the predictions of the model, written as a tree:
     <<"q", n, d>> rational number,  <<"+", a, b>>, <<"-", ..>>, <<"*", ..>>,
     <<"/", ..>>, <<"log", a>>, <<"lgamma", a>>, <<"sqrt", a>>,
     <<"max", a, b>>, <<"pi">>
   so that what is emitted is a complete definition of the loss.

   DomTerm(e, d):   contribution of each DOM of kind d of event e
   EventTerm(e):    further contribution of event e
   Total:           the scalar loss                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumEvents, Kinds, MaxPulses, Functions

VARIABLES fn,      \* name of the loss function
          norm,    \* normalisation terms are added
          excl,    \* DOM exclusions are given
          lims,    \* limits on quantiles, in tenths; -1: none
          ev,      \* events: [true, pred, var, lpdf, valid] per kind of DOM
          pulses   \* [e, d, q, pdf, qpdf, quant]
vars == <<fn, norm, excl, lims, ev, pulses>>

Events == 1..NumEvents
Doms == 1..Kinds
NumDoms == 5160
Count(d) == IF d < Kinds THEN 1 ELSE NumDoms - (Kinds - 1)

----------------------------------------------------------------------------
Q(n, d) == <<"q", n, d>>
Zero == Q(0, 1)
One == Q(1, 1)
Add(a, b) == IF a = Zero THEN b ELSE IF b = Zero THEN a ELSE <<"+", a, b>>
Sub(a, b) == <<"-", a, b>>
Mul(a, b) == <<"*", a, b>>
Div(a, b) == <<"/", a, b>>
Neg(a) == IF a = Zero THEN a ELSE Mul(Q(-1, 1), a)
Log(a) == <<"log", a>>
Max(a, b) == <<"max", a, b>>
Eps == Q(1, 10000000)       \* against logarithms of zero
Eps2 == Q(5, 100000)        \* for the negative binomial distribution
Factorial(x) == <<"lgamma", Max(Add(x, One), Q(2, 1))>>
Gauss(x, mu, sigma) ==
  LET z == Div(Sub(x, mu), sigma)
  IN Sub(Sub(Mul(Q(-1, 2), Mul(z, z)), Log(sigma)),
         Log(<<"sqrt", Mul(Q(2, 1), <<"pi">>)>>))
NegBinomial(x, mu, alpha) ==
  LET inv == Div(One, alpha)
      am == Mul(alpha, mu)
  IN Add(Add(Sub(<<"lgamma", Add(x, inv)>>, <<"lgamma", inv>>),
             Neg(Mul(inv, Log(Add(One, am))))),
         Mul(x, Log(Div(am, Add(One, am)))))

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN Zero
                ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z
                     IN Add(f[x], SumSet(f, S \ {x}))
\* sum over all DOMs of an event
SumDoms(f, S) == SumSet([d \in S |-> Mul(Q(Count(d), 1), f[d])], S)

----------------------------------------------------------------------------
Valid(B, e, d) == ~excl \/ B.ev[e].valid[d]
ValidDoms(B, e) == {d \in Doms : Valid(B, e, d)}
True(B, e, d) == Q(B.ev[e].true[d], 2)
Pred(B, e, d) == Q(B.ev[e].pred[d], 4)
Var(B, e, d) == Q(B.ev[e].var[d], 4)
LPdf(B, e, d) == Q(B.ev[e].lpdf[d], 3)

\* what the pulses contribute to the DOM they are on
PulseTerm(p) ==
  LET t == CASE fn \in {"unbinned_extended_pulse_llh",
                        "unbinned_pulse_time_llh",
                        "unbinned_pulse_and_dom_charge_pdf"} ->
                  Neg(Mul(Q(p.q, 2), Log(Add(Q(p.pdf, 8), Eps))))
             [] fn = "unbinned_charge_quantile_pdf" ->
                  IF \/ lims[1] >= 0 /\ p.quant < lims[1]
                     \/ lims[2] >= 0 /\ p.quant > lims[2]
                  THEN Zero
                  ELSE Neg(Log(Add(Q(p.qpdf, 8), Eps)))
             [] OTHER -> Zero
      n == IF norm /\ fn \in {"unbinned_extended_pulse_llh",
                              "unbinned_pulse_time_llh",
                              "unbinned_pulse_and_dom_charge_pdf"}
           THEN Factorial(Q(p.q, 2)) ELSE Zero
  IN Add(t, n)
PulsesOn(B, e, d) ==
  LET S == {i \in DOMAIN B.pulses : B.pulses[i].e = e /\ B.pulses[i].d = d}
  IN SumSet([i \in S |-> PulseTerm(B.pulses[i])], S)

ChargeTerm(B, e, d) ==
  IF ~Valid(B, e, d) THEN Zero
  ELSE CASE fn = "unbinned_extended_pulse_llh" ->
              Add(Sub(Pred(B, e, d),
                      Mul(True(B, e, d), Log(Add(Pred(B, e, d), Eps)))),
                  IF norm THEN Factorial(True(B, e, d)) ELSE Zero)
         [] fn = "unbinned_pulse_and_dom_charge_pdf" ->
              Add(Neg(LPdf(B, e, d)),
                  IF norm THEN Factorial(True(B, e, d)) ELSE Zero)
         [] fn = "dom_and_event_charge_pdf" -> Neg(LPdf(B, e, d))
         [] fn = "negative_binomial_charge_pdf" ->
              Neg(NegBinomial(True(B, e, d), Pred(B, e, d),
                    Max(Div(Sub(Var(B, e, d), Pred(B, e, d)),
                            Add(Mul(Pred(B, e, d), Pred(B, e, d)), Eps2)),
                        Eps2)))
         [] fn = "normalized_dom_charge_pdf" ->
              Neg(Mul(True(B, e, d),
                      Log(Add(Div(Pred(B, e, d),
                                  SumDoms([k \in Doms |-> Pred(B, e, k)],
                                          ValidDoms(B, e))), Eps2))))
         [] OTHER -> Zero
DomTerm(B, e, d) == Add(ChargeTerm(B, e, d), PulsesOn(B, e, d))

EventTerm(B, e) ==
  LET tru == SumDoms([d \in Doms |-> True(B, e, d)], ValidDoms(B, e))
      prd == SumDoms([d \in Doms |-> Pred(B, e, d)], ValidDoms(B, e))
      vrn == SumDoms([d \in Doms |-> Var(B, e, d)], ValidDoms(B, e))
  IN CASE fn = "dom_and_event_charge_pdf" ->
            Neg(Gauss(tru, prd, <<"sqrt", vrn>>))
       [] fn = "negative_binomial_event_charge_pdf" ->
            Neg(NegBinomial(tru, prd,
                  Max(Div(Sub(vrn, prd), Mul(prd, prd)), Eps2)))
       [] OTHER -> Zero

TotalOf(B, S) == SumSet([e \in S |->
                 Add(EventTerm(B, e),
                     SumDoms([d \in Doms |-> DomTerm(B, e, d)], Doms))], S)
Total == TotalOf([ev |-> ev, pulses |-> pulses], Events)
\* optional normalisation of everything by the (approximate) number of terms
Scale(B) == Add(SumSet([i \in DOMAIN B.pulses |-> Q(B.pulses[i].q, 2)],
                    DOMAIN B.pulses), Q(NumDoms * NumEvents, 1))

----------------------------------------------------------------------------
Batch == [ev |-> ev, pulses |-> pulses]
\* what an event contributes depends on its own data and pulses only
Alone(e) ==
  [ev |-> [k \in Events |-> IF k = e THEN ev[k]
             ELSE [true |-> [d \in Doms |-> 7], pred |-> [d \in Doms |-> 3],
                   var |-> [d \in Doms |-> 9],
                   lpdf |-> [d \in Doms |-> -5],
                   valid |-> [d \in Doms |-> TRUE]]],
   pulses |-> SelectSeq(pulses, LAMBDA p : p.e = e)]
Independent ==
  \A e \in Events :
    /\ EventTerm(Batch, e) = EventTerm(Alone(e), e)
    /\ \A d \in Doms : DomTerm(Batch, e, d) = DomTerm(Alone(e), e, d)
\* excluded DOMs contribute nothing at all
Masked ==
  [Batch EXCEPT !.ev = [e \in Events |->
     [ev[e] EXCEPT
        !.true = [d \in Doms |-> IF Valid(Batch, e, d) THEN @[d] ELSE 8],
        !.pred = [d \in Doms |-> IF Valid(Batch, e, d) THEN @[d] ELSE 8],
        !.var = [d \in Doms |-> IF Valid(Batch, e, d) THEN @[d] ELSE 8],
        !.lpdf = [d \in Doms |-> IF Valid(Batch, e, d) THEN @[d] ELSE 8]]]]
Ignored ==
  \A e \in Events :
    /\ EventTerm(Batch, e) = EventTerm(Masked, e)
    /\ \A d \in Doms :
         /\ DomTerm(Batch, e, d) = DomTerm(Masked, e, d)
         /\ ~Valid(Batch, e, d) => DomTerm(Batch, e, d) = Zero

----------------------------------------------------------------------------
Fill(S) == TLCEval([d \in Doms |-> RandomElement(S)])
RandomEvent(e) ==
  [true |-> Fill({0, 0, 1, 2, 5, 9}), pred |-> Fill({1, 2, 4, 10}),
   var |-> Fill({1, 3, 8, 30}), lpdf |-> Fill({-1, -3, -10, 1}),
   valid |-> TLCEval([d \in Doms |-> RandomElement({TRUE, FALSE})])]
\* some DOM has to be left
Repair(v) == IF \E d \in Doms : v.valid[d] THEN v
             ELSE [v EXCEPT !.valid[1] = TRUE]

Init ==
  /\ fn \in Functions /\ norm \in BOOLEAN /\ excl \in BOOLEAN
  /\ lims = <<-1, -1>>
  /\ ev = [e \in Events |->
             [true |-> [d \in Doms |-> (d * e) % 3],
              pred |-> [d \in Doms |-> 1 + ((d + e) % 3)],
              var |-> [d \in Doms |-> 2 + ((d + e) % 4)],
              lpdf |-> [d \in Doms |-> - d],
              valid |-> [d \in Doms |-> d % 2 = 1]]]
  /\ pulses = <<[e |-> NumEvents, d |-> 1, q |-> 3, pdf |-> 1, qpdf |-> 1,
                 quant |-> 5]>>
Next ==
  /\ \E f \in {RandomElement(Functions)} : fn' = f
  /\ \E b \in {RandomElement(BOOLEAN)} : norm' = b
  /\ \E b \in {RandomElement(BOOLEAN)} : excl' = b
  /\ \E l \in {RandomElement({<<-1, -1>>, <<2, -1>>, <<-1, 7>>,
                              <<2, 7>>})} : lims' = l
  /\ \E v \in {TLCEval([e \in Events |-> TLCEval(Repair(RandomEvent(e)))])} :
       ev' = v
  /\ \E n \in {RandomElement(0..MaxPulses)} :
       \E p \in {TLCEval([i \in 1..n |->
                   TLCEval([e |-> RandomElement(Events),
                            d |-> RandomElement(1..(Kinds - 1)),
                            q |-> RandomElement({1, 2, 3, 8}),
                            pdf |-> RandomElement({0, 1, 4, 9}),
                            qpdf |-> RandomElement({0, 2, 8, 20}),
                            quant |-> RandomElement({0, 2, 5, 7, 9})])])} :
         pulses' = SelectSeq(p, LAMBDA x : ~excl' \/ ev'[x.e].valid[x.d])
Spec == Init /\ [][Next]_vars

Emit ==
  PrintT(ToJson(
    [fn |-> fn, norm |-> norm, excl |-> excl, lims |-> lims, ev |-> ev,
     pulses |-> pulses,
     dom |-> [e \in Events |-> [d \in Doms |-> DomTerm(Batch, e, d)]],
     event |-> [e \in Events |-> EventTerm(Batch, e)],
     total |-> Total, scale |-> Scale(Batch)]))
================================================================================
