--------------------------- MODULE CheckpointHist ---------------------------
(***************************************************************************)
(* Numbering, retention and restoring of model checkpoints (P08), as seen  *)
(* by a user.  Every behaviour is a history of operations with the         *)
(* expected observations; it is replayed on the real model classes.        *)
(* Weights: the k-th operation leaves weight k if it changes the weights.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Keeps, Nums, Emit

VARIABLES cur,    \* weights of the model in memory
          ck,     \* number -> [w, prot] for the checkpoints that exist
          latest, \* number of the latest checkpoint
          hist
vars == <<cur, ck, latest, hist>>

Init == cur = 0 /\ ck = <<>> /\ latest = 0 /\ hist = <<>>

Unprot(c) == {n \in DOMAIN c : ~c[n].prot}
Newest(S, k) == {n \in S : Cardinality({m \in S : m > n}) < k}
Restrict(c, S) == [n \in S |-> c[n]]

Obs(c, w, l) == [present |-> DOMAIN c, prots |-> DOMAIN c \ Unprot(c),
                 w |-> w, latest |-> l]

Record(op, ok, c, w, l) ==
  hist' = Append(hist, [op |-> op, ok |-> ok, exp |-> Obs(c, w, l)])

\* the weights are changed, then a checkpoint is saved
Save(p, k) ==
  LET w == Len(hist) + 1
      n == latest + 1
      all == [m \in DOMAIN ck \cup {n} |->
                IF m = n THEN [w |-> w, prot |-> p] ELSE ck[m]]
      keep == IF p THEN DOMAIN all
              ELSE (DOMAIN all \ Unprot(all)) \cup Newest(Unprot(all), k)
      c2 == Restrict(all, keep)
  IN /\ cur' = w /\ latest' = n /\ ck' = c2
     /\ Record([name |-> "save", w |-> w, prot |-> p, keep |-> k], TRUE,
               c2, w, n)

\* n = 0: the latest one; fresh: into a new object, which is used from then on
Load(n, fresh) ==
  LET m  == IF n = 0 THEN latest ELSE n
      ok == m \in DOMAIN ck
      w  == IF ok THEN ck[m].w ELSE cur
  IN /\ cur' = w
     /\ UNCHANGED <<ck, latest>>
     /\ Record([name |-> "load", num |-> n, fresh |-> fresh], ok, ck, w,
               latest)

Next == /\ Len(hist) < N
        /\ \/ \E p \in BOOLEAN, k \in Keeps : Save(p, k)
           \/ \E n \in Nums, f \in BOOLEAN : Load(n, f)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the guarantees of P08 follow from the transitions
ProtectedStay == [][\A n \in DOMAIN ck : ck[n].prot =>
                     n \in DOMAIN ck' /\ ck'[n] = ck[n]]_vars
NeverOverwritten == [][\A n \in DOMAIN ck \cap DOMAIN ck' :
                     ck'[n] = ck[n]]_vars
NumbersGrow == [][latest' >= latest /\ (DOMAIN ck' \ DOMAIN ck) \subseteq
                     {latest'}]_vars
LatestExists == latest > 0 => latest \in DOMAIN ck
EmitHist == Emit /\ Len(hist) = N => PrintT(ToJson(hist))
=============================================================================
