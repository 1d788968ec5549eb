------------------------------ MODULE TensorLists ------------------------------
(* Tensors and lists of tensors (egenerator/data/tensor.py).

   A tensor is told by the rank of its name and by the variation of its other
   properties: variation 0 is the standard, variation k differs from it in the
   k-th property.  Some variations are written in two ways, and some are
   inconsistent.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Variations, Invalid, MaxTensors, MaxLists, MaxSteps, Small

VARIABLES tens,    \* tensors of the caller
          lists,   \* lists: tensors in the order of their names
          steps    \* what was done
vars == <<tens, lists, steps>>

\* variations of an even number above 100 are another way to write the half
Norm(v) == IF v > 100 THEN v - 100 ELSE v
Range(s) == {s[i] : i \in DOMAIN s}
NamesOf(s) == {s[i].nm : i \in DOMAIN s}
Unique(s) == Cardinality(NamesOf(s)) = Len(s)
RECURSIVE Sorted(_)
Sorted(S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE y \in S : \A z \in S : y.nm <= z.nm
       IN <<x>> \o Sorted(S \ {x})
Canonical(s) == Sorted(Range(s))
Clean(s) == [i \in DOMAIN s |-> [nm |-> s[i].nm, v |-> Norm(s[i].v)]]

Log(r) == steps' = Append(steps, r)
Go == Len(steps) < MaxSteps
NewTensor(nm, v) ==
  /\ Go /\ Len(tens) < MaxTensors
  /\ IF v \in Invalid THEN tens' = tens
     ELSE tens' = Append(tens, [nm |-> nm, v |-> v])
  /\ Log([op |-> "tensor", nm |-> nm, v |-> v, ok |-> v \notin Invalid])
  /\ UNCHANGED lists
\* a new list of tensors
Add(s, r) ==
  /\ Go /\ Len(lists) < MaxLists
  /\ IF Unique(s) THEN lists' = Append(lists, Clean(Canonical(s)))
     ELSE lists' = lists
  /\ Log(r @@ [ok |-> Unique(s)])
  /\ UNCHANGED tens
Make(ix) == Add([i \in DOMAIN ix |-> tens[ix[i]]], [op |-> "make", of |-> ix])
Copy(l) == Add(lists[l], [op |-> "copy", of |-> <<l>>])
Join(l, m) == Add(lists[l] \o lists[m], [op |-> "join", of |-> <<l, m>>])
\* serialised tensors in any order
Restore(l, p) == Add([i \in DOMAIN p |-> lists[l][p[i]]],
                     [op |-> "restore", of |-> <<l>>, perm |-> p])
\* changes of tensors of the caller are of no importance for lists
Change(i, v) ==
  /\ Go /\ tens[i].v # v /\ v \notin Invalid
  /\ tens' = [tens EXCEPT ![i].v = v]
  /\ Log([op |-> "change", of |-> <<i>>, v |-> v, ok |-> TRUE])
  /\ UNCHANGED lists

----------------------------------------------------------------------------
Equal(l, m) == lists[l] = lists[m]
OrderOk == \A l \in DOMAIN lists : \A i, j \in DOMAIN lists[l] :
             i < j => lists[l][i].nm < lists[l][j].nm
\* equality does not depend on the order the tensors were given in
SetsDecide == \A l, m \in DOMAIN lists :
                Equal(l, m) <=> Range(lists[l]) = Range(lists[m])
Grow == [][Len(lists') >= Len(lists) /\
           \A l \in DOMAIN lists : lists'[l] = lists[l]]_vars

R(S) == RandomElement(S)
Indices(k) == UNION {[1..j -> 1..k] : j \in 0..3}
Perms(k) == Permutations(1..k)
Init == tens = <<>> /\ lists = <<>> /\ steps = <<>>
NextAll ==
  \/ \E nm \in Names : \E v \in Variations : NewTensor(nm, v)
  \/ \E ix \in Indices(Len(tens)) : Make(ix)
  \/ \E l \in DOMAIN lists : Copy(l)
  \/ \E l, m \in DOMAIN lists : Join(l, m)
  \/ \E l \in DOMAIN lists : \E p \in Perms(Len(lists[l])) : Restore(l, p)
  \/ \E i \in DOMAIN tens : \E v \in Variations : Change(i, v)
\* mostly tensors of different names, and no list twice in a row
NextRandom ==
  \E x \in {R(1..20)} :
  LET room == Len(lists) < MaxLists
  IN IF (x <= 8 \/ tens = <<>>) /\ Len(tens) < MaxTensors
     THEN \E nm \in {R(Names)} : \E v \in {R(Variations \cup {0, 1})} :
            NewTensor(nm, v)
     ELSE IF room /\ (x <= 12 \/ (x <= 18 /\ lists = <<>>))
     THEN \E S \in {R({T \in SUBSET (1..Len(tens)) : Cardinality(T) <= 5})} :
          \E p \in {R(Perms(Cardinality(S)))} :
            LET RECURSIVE Up(_)
                Up(T) == IF T = {} THEN <<>>
                         ELSE LET m == CHOOSE y \in T : \A z \in T : y <= z
                              IN <<m>> \o Up(T \ {m})
                s == Up(S)
            IN Make([i \in DOMAIN s |-> s[p[i]]])
     ELSE IF room /\ x <= 18 /\ lists # <<>>
     THEN IF x <= 14 THEN \E l \in {R(DOMAIN lists)} : Copy(l)
          ELSE IF x = 15
          THEN \E l \in {R(DOMAIN lists)} : \E m \in {R(DOMAIN lists)} :
                 Join(l, m)
          ELSE \E l \in {R(DOMAIN lists)} :
               \E p \in {R(Perms(Len(lists[l])))} : Restore(l, p)
     ELSE \E i \in {R(DOMAIN tens)} :
          \E v \in {R(Variations \ (Invalid \cup {tens[i].v}))} : Change(i, v)
Next == IF Small THEN NextAll ELSE NextRandom
Spec == Init /\ [][Next]_vars
Emit == Len(steps) = MaxSteps =>
          PrintT(ToJson([steps |-> steps, lists |-> lists]))
================================================================================
