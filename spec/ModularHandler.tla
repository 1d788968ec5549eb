--------------------------- MODULE ModularHandler ----------------------------
(***************************************************************************)
(* What a modular data handler returns for one file (P04).  A case is a    *)
(* layout of tensors over the modules, a file (number of events, vector    *)
(* elements per event and their order in the file), a filter mask, and     *)
(* what every module does: give its data, ask to skip the file, or give    *)
(* data for another number of events.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxEvents, MaxMult, Mode    \* Mode: "data" or "modules"

Mods == {"data", "label", "misc", "weight"}
T(rank, mod, kind, ref, exists) ==
  [rank |-> rank, mod |-> mod, kind |-> kind, ref |-> ref, exists |-> exists]

\* the rank gives the position of the tensor's name in the alphabetic order
Layouts == <<
  {T(1, "data", "idx", 3, TRUE), T(2, "label", "norm", 0, TRUE),
   T(3, "data", "val", 1, TRUE), T(4, "weight", "norm", 0, TRUE),
   T(5, "misc", "norm", 0, TRUE)},
  {T(1, "label", "val", 6, TRUE), T(2, "data", "norm", 0, TRUE),
   T(3, "misc", "norm", 0, FALSE), T(4, "data", "norm", 0, TRUE),
   T(5, "misc", "norm", 0, TRUE), T(6, "label", "idx", 1, TRUE)},
  {T(1, "data", "val", 8, TRUE), T(2, "misc", "idx", 4, TRUE),
   T(3, "data", "idx", 7, FALSE), T(4, "misc", "val", 2, TRUE),
   T(5, "weight", "norm", 0, FALSE), T(6, "weight", "norm", 0, TRUE),
   T(7, "data", "val", 3, FALSE), T(8, "data", "idx", 1, TRUE)},
  {T(1, "weight", "norm", 0, TRUE), T(2, "data", "norm", 0, TRUE)},
  {T(1, "label", "norm", 0, TRUE), T(2, "data", "norm", 0, TRUE),
   T(3, "label", "norm", 0, FALSE), T(4, "label", "norm", 0, TRUE),
   T(5, "data", "norm", 0, FALSE)} >>

VARIABLES lay, n, mult, order, mask, does
vars == <<lay, n, mult, order, mask, does>>

Owned(m) == {t \in Layouts[lay] : t.mod = m}
Give == [m \in Mods |-> "give"]

Init ==
  /\ lay \in 1..Len(Layouts)
  /\ IF Mode = "data"
     THEN /\ n \in 0..MaxEvents
          /\ mult \in [1..n -> 0..MaxMult]
          /\ order \in {"sorted", "mixed", "backwards"}
          /\ mask \in SUBSET (1..n)
          /\ does = Give
     ELSE /\ n \in 1..2
          /\ mult = [e \in 1..n |-> 1]
          /\ order = "sorted"
          /\ mask \in {1..n, {n}, {}}
          /\ does \in [Mods -> {"give", "skip", "more"}]
          /\ \A m \in Mods : Owned(m) = {} => does[m] = "give"
          \* a module disagrees with data only
          /\ \A m \in Mods : does[m] = "more" =>
               \E t \in Owned(m) : t.exists
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the j-th element of event e; the two vectors of layout 3 differ
Elements(rank, e) ==
  IF lay = 3 /\ rank \in {2, 4} THEN mult[n + 1 - e] ELSE mult[e]

Kept == mask
At(e) == Cardinality({k \in Kept : k <= e})    \* new position
EventAt(p) == CHOOSE e \in Kept : At(e) = p

Counts == {IF does[m] = "more" THEN n + 1 ELSE n :
             m \in {x \in Mods : \E t \in Owned(x) : t.exists}}

Result == IF \E m \in Mods : does[m] = "skip" THEN "skip"
          ELSE IF Cardinality(Counts) > 1 THEN "error"
          ELSE IF n + (IF \E m \in Mods : does[m] = "more" THEN 1 ELSE 0) = 0
               \/ Kept = {} THEN "skip"
          ELSE "give"

\* for every tensor: none, the events at the positions, or the elements
Content(t) ==
  IF ~t.exists THEN [kind |-> "none", c |-> <<>>]
  ELSE IF t.kind = "norm"
  THEN [kind |-> "norm",
        c |-> [p \in 1..Cardinality(Kept) |-> EventAt(p)]]
  ELSE [kind |-> t.kind,
        c |-> [p \in 1..Cardinality(Kept) |->
                [e |-> EventAt(p), m |-> Elements(t.rank, EventAt(p))]]]

ByRank == [r \in 1..Cardinality(Layouts[lay]) |->
             Content(CHOOSE t \in Layouts[lay] : t.rank = r)]

----------------------------------------------------------------------------
Consistent ==
  Result = "give" =>
    \A r \in DOMAIN ByRank : ByRank[r].kind # "none" =>
      /\ Len(ByRank[r].c) = Cardinality(Kept)
      \* original order, and the same events in every tensor
      /\ \A p, q \in DOMAIN ByRank[r].c : p < q =>
           EventAt(p) < EventAt(q)
Emit == PrintT(ToJson(
  [lay |-> lay, tensors |-> Layouts[lay], n |-> n,
   mult |-> mult, order |-> order, mask |-> mask,
   does |-> does, result |-> Result,
   tot |-> [r \in 1..Cardinality(Layouts[lay]) |->
              [e \in 1..n |-> Elements(r, e)]],
   out |-> IF Result = "give" THEN ByRank ELSE <<>>]))
=============================================================================
