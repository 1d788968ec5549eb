----------------------------- MODULE CombinedLoss -----------------------------
(* Total losses: sums over loss components (egenerator/loss/multi_loss.py) and
   over the models of an ensemble (egenerator/manager/base.py and source.py).

   A loss is a tree: a leaf is a loss component with a list of terms, an inner
   node combines losses.  A term has a shape ("s": one number, "e": one per
   event, "d": one per event and DOM) and, for the model with factor v, event
   parameter p and an additional setting `shift`, the value
      a * v * p + c * i + shift     (i: position of the DOM, else 1)
   or, if it is constant, c.  Terms of shape "s" use the sum over all events. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEvents, NumDoms, MaxModels, MaxTerms, Simulated

VARIABLES tree,     \* loss: [leaf, terms, sub]
          models,   \* factors of the models
          pars,     \* parameter of each event
          shift     \* further setting passed to the loss
vars == <<tree, models, pars, shift>>

Shapes == {"s", "e", "d"}
----------------------------------------------------------------------------
RECURSIVE Leaves(_)
Concat(ss) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1)
  IN F(1)
\* components of a loss in the order in which they were given
Leaves(t) == IF t.leaf THEN <<t.terms>>
             ELSE Concat([i \in DOMAIN t.sub |-> Leaves(t.sub[i])])
\* all individual terms
Terms(t) == Concat(Leaves(t))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Events(p) == DOMAIN p
Doms == 1..NumDoms

\* value of a term for one model
Scalar(t, v, p, sh) == IF t.const THEN t.c
                       ELSE t.a * v * SumSeq(p) + t.c + sh
Event(t, v, p, sh, e) == IF t.const THEN t.c ELSE t.a * v * p[e] + t.c + sh
Dom(t, v, p, sh, e, d) == IF t.const THEN t.c
                          ELSE t.a * v * p[e] + t.c * d + sh
TermSum(t, v, p, sh) ==
  CASE t.shape = "s" -> Scalar(t, v, p, sh)
    [] t.shape = "e" -> SumSeq([e \in Events(p) |-> Event(t, v, p, sh, e)])
    [] t.shape = "d" -> SumSeq([e \in Events(p) |->
                          SumSeq([d \in Doms |-> Dom(t, v, p, sh, e, d)])])

\* items of the ensemble: corresponding terms of the members are added
Over(ms, F(_)) == SumSeq([k \in DOMAIN ms |-> F(ms[k])])
Item(t, ms, p, sh) ==
  CASE t.shape = "s" -> LET F(v) == Scalar(t, v, p, sh) IN Over(ms, F)
    [] t.shape = "e" -> [e \in Events(p) |->
                           LET F(v) == Event(t, v, p, sh, e) IN Over(ms, F)]
    [] t.shape = "d" -> [e \in Events(p) |-> [d \in Doms |->
                           LET F(v) == Dom(t, v, p, sh, e, d)
                           IN Over(ms, F)]]
Items(tr, ms, p, sh) == LET ts == Terms(tr)
                        IN [j \in DOMAIN ts |-> Item(ts[j], ms, p, sh)]

\* sorted items
Of(tr, s) == SelectSeq(Terms(tr), LAMBDA t : t.shape = s)
SortedScalar(tr, ms, p, sh) ==
  LET ts == Of(tr, "s")
  IN SumSeq([j \in DOMAIN ts |-> Item(ts[j], ms, p, sh)])
SortedEvent(tr, ms, p, sh) ==
  LET ts == Of(tr, "e")
  IN [e \in Events(p) |-> SumSeq([j \in DOMAIN ts |->
                                    Item(ts[j], ms, p, sh)[e]])]
SortedDom(tr, ms, p, sh) ==
  LET ts == Of(tr, "d")
  IN [e \in Events(p) |-> [d \in Doms |->
        SumSeq([j \in DOMAIN ts |-> Item(ts[j], ms, p, sh)[e][d]])]]

\* the scalar loss is defined by the components and the members ...
RECURSIVE LossOf(_, _, _, _)
LossOf(t, v, p, sh) ==
  IF t.leaf THEN SumSeq([j \in DOMAIN t.terms |-> TermSum(t.terms[j], v, p, sh)])
  ELSE SumSeq([i \in DOMAIN t.sub |-> LossOf(t.sub[i], v, p, sh)])
Total(tr, ms, p, sh) == LET F(v) == LossOf(tr, v, p, sh) IN Over(ms, F)

----------------------------------------------------------------------------
\* ... and equals the sum of all items, sorted or not
SumItems(tr, ms, p, sh) ==
  LET ts == Terms(tr)
      S(j) == LET F(v) == TermSum(ts[j], v, p, sh) IN Over(ms, F)
  IN SumSeq([j \in DOMAIN ts |-> S(j)])
SameTotal ==
  /\ Total(tree, models, pars, shift) = SumItems(tree, models, pars, shift)
  /\ Total(tree, models, pars, shift) =
       SortedScalar(tree, models, pars, shift)
       + SumSeq(SortedEvent(tree, models, pars, shift))
       + SumSeq([e \in Events(pars) |->
                   SumSeq(SortedDom(tree, models, pars, shift)[e])])
\* the order of components and of members does not matter
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
OrderIrrelevant ==
  LET t2 == IF tree.leaf THEN tree
            ELSE [tree EXCEPT !.sub = Reverse(tree.sub)]
      m2 == Reverse(models)
  IN /\ Total(t2, m2, pars, shift) = Total(tree, models, pars, shift)
     /\ SortedEvent(t2, m2, pars, shift) =
          SortedEvent(tree, models, pars, shift)
     /\ SortedDom(t2, m2, pars, shift) = SortedDom(tree, models, pars, shift)
\* a member contributes independently of the others
Additive ==
  \A k \in DOMAIN models :
    Total(tree, models, pars, shift) =
      Total(tree, SubSeq(models, 1, k), pars, shift)
      + Total(tree, SubSeq(models, k + 1, Len(models)), pars, shift)

----------------------------------------------------------------------------
Term(sh, a, c, k) == [shape |-> sh, a |-> a, c |-> c, const |-> k]
Leaf(ts) == [leaf |-> TRUE, terms |-> ts, sub |-> <<>>]
Node(ts) == [leaf |-> FALSE, terms |-> <<>>, sub |-> ts]
\* components used in the exhaustive part
C1 == Leaf(<<Term("e", 1, 2, FALSE)>>)
C2 == Leaf(<<Term("d", 2, 1, FALSE), Term("s", 1, 3, FALSE)>>)
C3 == Leaf(<<Term("s", 0, 5, TRUE), Term("e", 0, 7, TRUE),
             Term("d", 0, 1, TRUE)>>)
C4 == Leaf(<<Term("d", 3, 0, FALSE), Term("d", 0, 4, TRUE)>>)
C5 == Leaf(<<>>)
Cs == {C1, C2, C3, C4}
Small == Cs \cup {Node(<<x, y>>) : x \in Cs, y \in Cs}
Trees == Small \cup {Node(<<x>>) : x \in Small}
         \cup {Node(<<x, y>>) : x \in Cs, y \in Small}
         \cup {Node(<<x, y, z>>) : x \in {C1, C2}, y \in Small, z \in {C3, C4}}
         \cup {Node(<<C1, C5>>), Node(<<C5, C2>>)}

RandTerm(z) == TLCEval(Term(RandomElement(Shapes), RandomElement(-3..3),
                            RandomElement(-2..4), RandomElement(BOOLEAN)))
RandLeaf(z) == LET n == RandomElement(1..MaxTerms)
               IN TLCEval(Leaf(TLCEval([j \in 1..n |-> RandTerm(j)])))
RECURSIVE RandTree(_)
RandTree(depth) ==
  IF depth = 0 THEN RandLeaf(0)
  ELSE LET k == TLCEval(RandomElement(0..4))
       IN IF k = 0 THEN RandLeaf(k)
          ELSE TLCEval(Node(TLCEval([i \in 1..k |->
                 RandTree(TLCEval(RandomElement(0..(depth - 1))))])))

Init ==
  IF Simulated
  THEN tree = C1 /\ models = <<1>> /\ pars = <<1>> /\ shift = 0
  ELSE /\ tree \in Trees
       /\ models \in {<<2>>, <<1, 3>>, <<2, 5, 1>>}
       /\ pars \in {<<2>>, <<1, 4>>}
       /\ shift \in {0, 6}
Next ==
  IF Simulated
  THEN /\ \E t \in {RandTree(RandomElement(0..3))} : tree' = t
       /\ \E k \in {RandomElement(1..MaxModels)} :
            \E m \in {TLCEval([i \in 1..k |-> RandomElement(-2..5)])} :
              models' = m
       /\ \E k \in {RandomElement(1..MaxEvents)} :
            \E m \in {TLCEval([i \in 1..k |-> RandomElement(-5..9)])} :
              pars' = m
       /\ \E s \in {RandomElement(0..3)} : shift' = s
  ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars

Emit ==
  PrintT(ToJson(
    [tree |-> tree, models |-> models, pars |-> pars, shift |-> shift,
     items |-> Items(tree, models, pars, shift),
     shapes |-> [j \in DOMAIN Terms(tree) |-> Terms(tree)[j].shape],
     ss |-> SortedScalar(tree, models, pars, shift),
     se |-> SortedEvent(tree, models, pars, shift),
     sd |-> SortedDom(tree, models, pars, shift),
     total |-> Total(tree, models, pars, shift)]))
================================================================================
