------------------------------ MODULE TrainHist ------------------------------
(***************************************************************************)
(* The training history of a model (P10): histories of operations with the *)
(* expected record, replayed on the real model classes.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Steps, Comps, Emit

VARIABLES tr,     \* sequence of entries [cfg, comps, steps]
          hist
vars == <<tr, hist>>
Init == tr = <<>> /\ hist = <<>>

Rec(op, ok, t) == hist' = Append(hist, [op |-> op, ok |-> ok, exp |-> t])

\* a training is started with settings number Len(hist) + 1
Start(full, comps) ==
  /\ tr' = Append(tr, [cfg |-> Len(hist) + 1, comps |-> comps, steps |-> 0])
  /\ Rec([name |-> "start", full |-> full, cfg |-> Len(hist) + 1,
          comps |-> comps], TRUE, tr')
\* a checkpoint after s steps (0: without a number of steps)
Ckpt(s) ==
  LET ok == s = 0 \/ tr # <<>>
      t == IF s = 0 \/ tr = <<>> THEN tr
           ELSE [tr EXCEPT ![Len(tr)].steps = s]
  IN tr' = t /\ Rec([name |-> "ckpt", steps |-> s], ok, t)
Reload == UNCHANGED tr /\ Rec([name |-> "reload"], TRUE, tr)
Again == UNCHANGED tr /\ Rec([name |-> "save"], TRUE, tr)  \* overwriting save

Next == /\ Len(hist) < N
        /\ \/ \E f \in BOOLEAN, c \in Comps : Start(f, c)
           \/ \E s \in Steps : Ckpt(s)
           \/ Reload \/ Again
Spec == Init /\ [][Next]_vars

EarlierKept == [][/\ Len(tr') >= Len(tr)
                  /\ \A i \in 1..(Len(tr) - 1) : tr'[i] = tr[i]
                  /\ \A i \in DOMAIN tr : tr'[i].cfg = tr[i].cfg]_vars
EmitHist == Emit /\ Len(hist) = N => PrintT(ToJson(hist))
=============================================================================
