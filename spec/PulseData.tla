------------------------------- MODULE PulseData -------------------------------
(* Pulse data of a file or of frames
   (egenerator/data/modules/data/pulse_data.py).

   A file has a row for each pulse, excluded DOM and excluded time window, told
   by event, string and DOM.  DOMs with numbers above 60 are irregular; some
   DOMs are known to be bad.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEvents, MaxPulses, MaxOthers, Small

VARIABLES n,        \* number of events
          pulses,   \* rows [e, dom, q, t]
          exdoms,   \* rows [e, dom] of excluded DOMs; <<>> or absent
          exwins,   \* rows [e, dom, a, b] of excluded time windows
          opt,      \* options, and which tables the file has
          phase
vars == <<n, pulses, exdoms, exwins, opt, phase>>

\* DOMs: three good ones (two on the same string), a bad one, irregular ones
Good == {1, 2, 3}
BadDoms == {4}
Regular == Good \cup BadDoms
Irregular == {5, 6}
Doms == Regular \cup Irregular
Events == 1..n

RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN 0 ELSE Head(s).q + SumQ(Tail(s))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

----------------------------------------------------------------------------
(* What is delivered                                                         *)
Reg(s) == SelectSeq(s, LAMBDA r : r.dom \in Regular)
At(s, e, d) == SelectSeq(s, LAMBDA r : r.e = e /\ r.dom = d)
Charge(e, d) == SumQ(At(Reg(pulses), e, d))
Excluded(e, d) == \/ d \in BadDoms
                  \/ opt.hasdoms /\ \E i \in DOMAIN exdoms :
                       exdoms[i].e = e /\ exdoms[i].dom = d
\* with the charge seen so far by this DOM and in total
Annotated ==
  LET r == Reg(pulses)
  IN [i \in DOMAIN r |->
        [e |-> r[i].e, dom |-> r[i].dom, q |-> r[i].q, t |-> r[i].t,
         cum |-> SumQ(At(SubSeq(r, 1, i), r[i].e, r[i].dom)),
         tot |-> Charge(r[i].e, r[i].dom)]]
Delivered ==
  SelectSeq(Annotated, LAMBDA r :
     ~(opt.domkey /\ opt.discard /\ Excluded(r.e, r.dom)))
Windows == IF opt.winkey /\ opt.haswins THEN Reg(exwins) ELSE <<>>
Range(e) ==
  LET ts == {Reg(pulses)[i].t : i \in {j \in DOMAIN Reg(pulses) :
                                         Reg(pulses)[j].e = e}}
  IN IF ts = {} THEN <<>> ELSE <<MinOf(ts), MaxOf(ts)>>
Loaded == opt.haspulses /\ opt.haslabels
Out ==
  [ok |-> Loaded,
   pulses |-> Delivered,
   charges |-> [e \in Events |-> [d \in Regular |-> Charge(e, d)]],
   excluded |-> [e \in Events |-> [d \in Regular |-> Excluded(e, d)]],
   windows |-> Windows,
   ranges |-> [e \in Events |-> Range(e)]]

----------------------------------------------------------------------------
(* Properties *)
Done == phase = "end"
Count(s, r) == Cardinality({i \in DOMAIN s :
                  s[i].e = r.e /\ s[i].dom = r.dom /\ s[i].q = r.q
                  /\ s[i].t = r.t})
\* nothing is lost, invented or mixed up
NoneLost ==
  Done => \A i \in DOMAIN pulses :
    LET r == pulses[i]
    IN Count(Delivered, r) =
         IF r.dom \in Irregular \/
            (opt.domkey /\ opt.discard /\ Excluded(r.e, r.dom))
         THEN 0 ELSE Count(pulses, r)
NoneInvented ==
  Done => \A i \in DOMAIN Delivered : Count(pulses, Delivered[i]) > 0
ChargesAddUp ==
  Done => \A e \in Events :
    SumQ(SelectSeq(Reg(pulses), LAMBDA r : r.e = e)) =
      Charge(e, 1) + Charge(e, 2) + Charge(e, 3) + Charge(e, 4)
Quantiles ==
  Done => \A i \in DOMAIN Annotated :
    LET r == Annotated[i]
        later == {j \in DOMAIN Annotated : j > i /\
                    Annotated[j].e = r.e /\ Annotated[j].dom = r.dom}
    IN /\ r.cum <= r.tot
       /\ (later = {}) => r.cum = r.tot
       /\ \A j \in later : Annotated[j].cum >= r.cum
InRange ==
  Done => \A i \in DOMAIN Delivered :
    LET r == Delivered[i]
    IN Range(r.e)[1] <= r.t /\ r.t <= Range(r.e)[2]

----------------------------------------------------------------------------
R(S) == RandomElement(S)
Pulse(k) == TLCEval([e |-> R(1..k), dom |-> R(Doms), q |-> R(1..9),
                     t |-> R(-5..20)])
Win(k) == LET a == TLCEval(R(-5..20))
          IN TLCEval([e |-> R(1..k), dom |-> R(Doms), a |-> a,
                      b |-> a + R(1..9)])
Ex(k) == TLCEval([e |-> R(1..k), dom |-> R(Doms)])
Options ==
  [quant : BOOLEAN, discard : BOOLEAN, domkey : BOOLEAN, winkey : BOOLEAN,
   hasdoms : BOOLEAN, haswins : BOOLEAN, haspulses : {TRUE},
   haslabels : {TRUE}]
Init == /\ n = 0 /\ pulses = <<>> /\ exdoms = <<>> /\ exwins = <<>>
        /\ opt = [quant |-> FALSE] /\ phase = "start"
NextRandom ==
  \/ /\ phase = "start" /\ phase' = "end"
     /\ \E k \in {R(1..MaxEvents)} :
        \E np \in {R(0..MaxPulses)} : \E nd \in {R(0..MaxOthers)} :
        \E nw \in {R(0..MaxOthers)} : \E x \in {R(1..24)} :
          /\ n' = k
          /\ pulses' = TLCEval([i \in 1..np |-> Pulse(k)])
          /\ exdoms' = TLCEval([i \in 1..nd |-> Ex(k)])
          /\ exwins' = TLCEval([i \in 1..nw |-> Win(k)])
          /\ \E o \in {TLCEval(R(Options))} :
               opt' = [o EXCEPT !.haspulses = x # 1, !.haslabels = x # 2,
                                !.hasdoms = (x % 5 # 0),
                                !.haswins = (x % 4 # 0)]
NextSmall ==
  \/ /\ phase = "start" /\ phase' = "more"
     /\ n' \in 1..MaxEvents
     /\ opt' \in [quant : {TRUE}, discard : BOOLEAN, domkey : {TRUE},
                  winkey : {FALSE}, hasdoms : BOOLEAN, haswins : {FALSE},
                  haspulses : {TRUE}, haslabels : {TRUE}]
     /\ UNCHANGED <<pulses, exdoms, exwins>>
  \/ /\ phase = "more" /\ Len(pulses) < MaxPulses
     /\ \E e \in Events : \E d \in {1, 4, 5} :
          pulses' = Append(pulses, [e |-> e, dom |-> d, q |-> Len(pulses) + 1,
                                    t |-> 3 - Len(pulses)])
     /\ UNCHANGED <<n, exdoms, exwins, opt, phase>>
  \/ /\ phase = "more" /\ phase' = "end"
     /\ \E x \in UNION {[1..k -> [e : Events, dom : {1, 5}]] :
                          k \in 0..MaxOthers} : exdoms' = x
     /\ UNCHANGED <<n, pulses, exwins, opt>>
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT(ToJson([n |-> n, pulses |-> pulses, exdoms |-> exdoms,
                               exwins |-> exwins, opt |-> opt, out |-> Out]))
================================================================================
