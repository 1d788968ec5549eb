--------------------------- MODULE PulseSampling ----------------------------
(***************************************************************************)
(* Pulses of simulated light sources (property P26).                       *)
(*                                                                         *)
(* Each source s puts pe[s][d] photo electrons into DOM d.  Each of them   *)
(* becomes one pulse, at the time of the source plus a delay drawn from    *)
(* the source's and DOM's own distribution of delays, here one of the      *)
(* components of the mixture with certainty.  The draws of the sources and *)
(* DOMs may be done in any order; a DOM's pulses end up ordered in time.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxSources, NumDoms, MaxPe, NumComp, Small

Doms == 1..NumDoms

VARIABLES num,          \* number of sources
          time,         \* [source |-> its time]
          pe,           \* [source |-> [DOM |-> photo electrons]]
          comp,         \* [source |-> [DOM |-> component of the mixture]]
          left,         \* photo electrons still to be drawn
          series,       \* [DOM |-> sequence of [t, s]]
          status

vars == <<num, time, pe, comp, left, series, status>>

(* delay of component c at DOM d due to source s                           *)
Delay(s, d, c) == 1 + ((3 * s + 5 * d + 4 * c) % 7)

Of(s) == 1..s

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0
             ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

Insert(q, p) ==
    LET k == Cardinality({i \in 1..Len(q) : q[i].t <= p.t})
    IN SubSeq(q, 1, k) \o <<p>> \o SubSeq(q, k + 1, Len(q))

Init ==
    /\ num = 0 /\ time = <<>> /\ pe = <<>> /\ comp = <<>> /\ left = <<>>
    /\ series = [d \in Doms |-> <<>>]
    /\ status = "new"

(* a random element that is drawn anew in every behaviour                  *)
Pick(S) == RandomElement({x \in S : status = "new"})

Choose ==
    /\ status = "new"
    /\ num' \in (IF Small THEN 0..MaxSources ELSE {Pick(0..MaxSources)})
    /\ time' \in (IF Small THEN [Of(num') -> {0, 2}]
                   ELSE {[s \in Of(num') |-> Pick(0..20)]})
    /\ pe' \in (IF Small THEN [Of(num') -> [Doms -> 0..MaxPe]]
                 ELSE {[s \in Of(num') |-> [d \in Doms |->
                          IF Pick(1..2) = 1 THEN 0 ELSE Pick(0..MaxPe)]]})
    /\ comp' \in (IF Small THEN {[s \in Of(num') |-> [d \in Doms |->
                                      1 + ((s + d) % NumComp)]]}
                   ELSE {[s \in Of(num') |-> [d \in Doms |->
                            Pick(1..NumComp)]]})
    /\ left' = pe'
    /\ status' = "draw"
    /\ UNCHANGED series

Draw(s, d) ==
    /\ status = "draw" /\ left[s][d] > 0
    /\ left' = [left EXCEPT ![s][d] = @ - 1]
    /\ series' = [series EXCEPT ![d] = Insert(@,
                    [t |-> time[s] + Delay(s, d, comp[s][d]), s |-> s])]
    /\ UNCHANGED <<num, time, pe, comp, status>>

Finish ==
    /\ status = "draw"
    /\ \A s \in Of(num), d \in Doms : left[s][d] = 0
    /\ status' = "done"
    /\ UNCHANGED <<num, time, pe, comp, left, series>>

Next ==
    \/ Choose
    \/ \E s \in Of(num), d \in Doms : Draw(s, d)
    \/ Finish

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Count(d, s) == Cardinality({i \in 1..Len(series[d]) : series[d][i].s = s})

OnePulseEach ==
    status # "new" => \A d \in Doms, s \in Of(num) : Count(d, s) = pe[s][d] - left[s][d]

NothingElse ==
    \A d \in Doms : \A i \in 1..Len(series[d]) : series[d][i].s \in Of(num)

InOrder == \A d \in Doms : \A i \in 1..(Len(series[d]) - 1) :
                series[d][i].t <= series[d][i + 1].t

(* the times of the final series do not depend on the order of the draws   *)
Due(d, t) == {s \in Of(num) : time[s] + Delay(s, d, comp[s][d]) = t}
Confluent ==
    status = "done" => \A d \in Doms : \A i \in 1..Len(series[d]) :
        LET t == series[d][i].t
        IN Cardinality({k \in 1..Len(series[d]) : series[d][k].t = t}) =
           Sum([s \in Of(num) |-> pe[s][d]], Due(d, t))

Emit ==
    status = "done" =>
        PrintT("case" \o ToJson([num |-> num, time |-> time, pe |-> pe,
            comp |-> comp,
            delay |-> [s \in Of(num) |-> [d \in Doms |->
                          [c \in 1..NumComp |-> Delay(s, d, c)]]],
            series |-> [d \in Doms |-> [i \in 1..Len(series[d]) |->
                          series[d][i].t]]]))
=============================================================================
