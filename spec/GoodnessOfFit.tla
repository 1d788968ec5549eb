--------------------------- MODULE GoodnessOfFit ----------------------------
(***************************************************************************)
(* Goodness of fit of a reconstructed event (property P27).                *)
(*                                                                         *)
(* Num events are simulated from the best fit (or from hypotheses drawn    *)
(* around it), each is reconstructed (or not), and its loss is evaluated   *)
(* at its own reconstructed point.  The loss of the data at the best fit   *)
(* is then compared with these losses, for the whole event and for every   *)
(* DOM, optionally after a division by the charge of the event plus one.   *)
(* The loss of an event has three parts: a constant, one of the event and  *)
(* one of every DOM.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxNum, NumDoms, MaxPe, MaxLoss, Small

Doms == 1..NumDoms

VARIABLES num, conf, pe, loss, k, calls, result, status

vars == <<num, conf, pe, loss, k, calls, result, status>>

(* index 0 stands for the data *)
Events == 0..num

Flags == [recon : BOOLEAN, perdom : BOOLEAN, norm : BOOLEAN]

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0
             ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

Charge(e) == Sum(pe[e], Doms)
Total(e) == loss[e].const + loss[e].event + Sum(loss[e].dom, Doms)

(* losses are compared as fractions *)
Div(e) == IF conf.norm THEN Charge(e) + 1 ELSE 1
Below(x, a, y, b) == x * b < y * a              \* x / a < y / b

NumBelow(f) == Cardinality({e \in 1..num : Below(f[e], Div(e), f[0], Div(0))})

(* one sided: share of samples that are not below the data                 *)
One(f) == num - NumBelow(f)
(* two sided, in units of half a sample                                    *)
Two(f) == LET j == 2 * NumBelow(f) - num
          IN num - (IF j < 0 THEN -j ELSE j)

Init ==
    /\ num = 0 /\ conf = <<>> /\ pe = <<>> /\ loss = <<>> /\ k = 0
    /\ calls = <<>> /\ result = <<>> /\ status = "new"

Pick(S) == RandomElement({x \in S : status = "new"})

OneLoss == [const : {0}, event : 0..MaxLoss, dom : [Doms -> {0, MaxLoss}]]

Choose ==
    /\ status = "new"
    /\ num' \in (IF Small THEN 1..MaxNum ELSE {Pick(1..MaxNum)})
    /\ conf' \in (IF Small THEN [recon : {TRUE}, perdom : {TRUE}, norm : BOOLEAN]
                  ELSE {Pick(Flags)})
    /\ pe' \in (IF Small THEN [0..num' -> [Doms -> {0, MaxPe}]]
                ELSE {[e \in 0..num' |-> LET dark == Pick(1..12) = 1
                          IN [d \in Doms |-> IF dark THEN 0
                                             ELSE Pick(0..MaxPe)]]})
    /\ loss' \in (IF Small THEN [0..num' -> OneLoss]
                  ELSE {[e \in 0..num' |->
                          [const |-> Pick(-MaxLoss..MaxLoss),
                           event |-> Pick(-MaxLoss..MaxLoss),
                           dom |-> [d \in Doms |->
                                      Pick(-MaxLoss..MaxLoss)]]]})
    /\ status' = "sample"
    /\ UNCHANGED <<k, calls, result>>

Simulate ==
    /\ status = "sample" /\ k < num
    /\ k' = k + 1
    /\ status' = IF conf.recon THEN "fit" ELSE "evaluate"
    /\ UNCHANGED <<num, conf, pe, loss, calls, result>>

Reconstruct ==
    /\ status = "fit"
    /\ calls' = Append(calls, <<"fit", k>>)
    /\ status' = "evaluate"
    /\ UNCHANGED <<num, conf, pe, loss, k, result>>

Evaluate ==
    /\ status = "evaluate"
    /\ calls' = Append(calls, <<"loss", k>>)
    /\ status' = "sample"
    /\ UNCHANGED <<num, conf, pe, loss, k, result>>

Data ==
    /\ status = "sample" /\ k = num
    /\ calls' = Append(calls, <<"loss", 0>>)
    /\ result' =
        LET total == [e \in Events |-> Total(e)]
        IN [one |-> One(total), two |-> Two(total),
            dom |-> IF conf.perdom
                    THEN [d \in Doms |->
                            LET f == [e \in Events |-> loss[e].dom[d]]
                            IN <<One(f), Two(f)>>]
                    ELSE <<>>]
    /\ status' = "done"
    /\ UNCHANGED <<num, conf, pe, loss, k>>

Next == Choose \/ Simulate \/ Reconstruct \/ Evaluate \/ Data

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Done == status = "done"

Bounded == Done => /\ 0 <= result.one /\ result.one <= num
                   /\ 0 <= result.two /\ result.two <= num

(* every sample is evaluated exactly once, and so is the data              *)
Each(e) == Cardinality({i \in 1..Len(calls) : calls[i] = <<"loss", e>>}) = 1
Once == Done => \A e \in Events : Each(e)

(* the tails: two sided p values are twice the smaller one sided tail      *)
Tails == Done => LET f == [e \in Events |-> Total(e)]
                     hi == One(f)
                     lo == num - hi
                 IN result.two = 2 * (IF hi < lo THEN hi ELSE lo)

(* data that are worse than all samples have p value zero                  *)
Worst == Done => ((\A e \in 1..num : Below(Total(e), Div(e), Total(0), Div(0)))
                    <=> result.one = 0)

(* identical samples and data: nothing is below                            *)
Alike == Done => ((\A e \in 1..num : Total(e) = Total(0) /\ Div(e) = Div(0))
                    => result.one = num)

Emit ==
    Done => PrintT("case" \o ToJson([num |-> num, conf |-> conf,
        pe |-> [e \in 1..(num + 1) |-> pe[e - 1]],
        loss |-> [e \in 1..(num + 1) |-> loss[e - 1]],
        calls |-> calls, result |-> result]))
=============================================================================
