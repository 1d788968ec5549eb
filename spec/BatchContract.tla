--------------------------- MODULE BatchContract ---------------------------
(***************************************************************************)
(* What a consumer of a single-pass batch generator observes (P01).        *)
(*                                                                         *)
(* rem[e]  how often event e still has to be delivered                     *)
(* short   an incomplete batch has been delivered                          *)
(* ended   the iteration is over                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Parameters (variables, so that trace specifications can instantiate them
\* per run; they never change)
VARIABLES Events,      \* all events of all readable files
          Reps,        \* requested number of repetitions
          BatchSize

VARIABLES rem, short, ended
cvars == <<rem, short, ended>>

Occ(b, e) == Cardinality({i \in DOMAIN b : b[i] = e})

CInit == /\ rem = [e \in Events |-> Reps]
         /\ short = FALSE
         /\ ended = FALSE

\* The clauses of the contract, by name (used for verdicts on real traces).
KnownEvents(b) == \A i \in DOMAIN b : b[i] \in Events
NotTooOften(b) == \A e \in Events : Occ(b, e) <= rem[e]
NotEmpty(b)    == Len(b) > 0
NotOversized(b) == Len(b) <= BatchSize
OnlyLastIsShort == ~short
NotAfterEnd     == ~ended
AllDelivered == \A e \in Events : rem[e] = 0

BatchOk(b) == /\ NotAfterEnd /\ OnlyLastIsShort
              /\ NotEmpty(b) /\ NotOversized(b)
              /\ KnownEvents(b) /\ NotTooOften(b)

Yield(b) == /\ BatchOk(b)
            /\ rem' = [e \in Events |-> rem[e] - Occ(b, e)]
            /\ short' = (Len(b) < BatchSize)
            /\ ended' = FALSE

End == /\ ~ended /\ AllDelivered
       /\ ended' = TRUE
       /\ UNCHANGED <<rem, short>>

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET T == SeqsUpTo(S, n - 1)
                       IN  T \cup {Append(t, s) : t \in T, s \in S}

CNext == End \/ \E b \in SeqsUpTo(Events, BatchSize) : Yield(b)
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
