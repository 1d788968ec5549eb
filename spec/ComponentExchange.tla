-------------------------- MODULE ComponentExchange --------------------------
(***************************************************************************)
(* Exchange of sub components on load (P07): every case is a saved tree of *)
(* components, replacements that differ from the saved ones at one place   *)
(* at any depth, and the names (at any depth) which are to be replaced.    *)
(*                                                                         *)
(* A design is [cls, s, m, chk, d, subs: name -> design, deps, muts].      *)
(***************************************************************************)
EXTENDS Component, Json

CONSTANT Deep    \* all pairs of replacements

Leaf(c, v) == [cls |-> c, s |-> v, m |-> 1, chk |-> 1, d |-> v,
               subs |-> <<>>, deps |-> {}, muts |-> {}]
Node(c, v, subs, deps, muts) ==
  [Leaf(c, v) EXCEPT !.subs = subs, !.deps = deps, !.muts = muts]

Inside == Node("A", 2, [x |-> Leaf("B", 3), z |-> Leaf("B", 4)],
               {"x", "z"}, {"z"})
Saved == Node("A", 1, [x |-> Inside, y |-> Leaf("A", 5), z |-> Inside,
                       n |-> Inside], {"x", "y", "z"}, {"z"})

RECURSIVE ConfOf(_), StoredOf(_)
ConfOf(t) == [cls |-> t.cls, ver |-> 1, s |-> t.s, m |-> t.m, chk |-> t.chk,
              subs |-> [n \in DOMAIN t.subs |-> ConfOf(t.subs[n])],
              deps |-> t.deps, muts |-> t.muts]
StoredOf(t) == [conf |-> ConfOf(t), dat |-> t.d,
                deps |-> [n \in t.deps |-> StoredOf(t.subs[n])]]

\* one change of a design
Without(f, S) == [n \in DOMAIN f \ S |-> f[n]]
Change(t, c) ==
  CASE c = "same" -> t
    [] c = "cls" -> [t EXCEPT !.cls = IF @ = "A" THEN "B" ELSE "A"]
    [] c = "s" -> [t EXCEPT !.s = 9]
    [] c = "m" -> [t EXCEPT !.m = 9]
    [] c = "chk" -> [t EXCEPT !.chk = 9]
    [] c = "d" -> [t EXCEPT !.d = 9]
    [] c = "add" -> [t EXCEPT !.subs = @ @@ ("w" :> Leaf("B", 3)),
                             !.deps = @ \cup {"w"}]
    [] c = "drop" -> [t EXCEPT !.subs = Without(@, {"x"}),
                              !.deps = @ \ {"x"}, !.muts = @ \ {"x"}]
    [] c = "rename" ->
         IF "x" \notin DOMAIN t.subs THEN t
         ELSE [t EXCEPT !.subs = Without(@, {"x"}) @@ ("w" :> t.subs["x"]),
                        !.deps = (@ \ {"x"}) \cup {"w"}]
    [] c = "undep" -> [t EXCEPT !.deps = {}]
    [] c = "free" -> [t EXCEPT !.muts = DOMAIN t.subs]
    [] OTHER -> [t EXCEPT !.muts = {}]
Changes == {"same", "cls", "s", "m", "chk", "d", "add", "drop", "rename",
            "undep", "free", "fix"}

\* all designs that differ from t in one place (depth <= 1 below t)
Variants(t) ==
  {Change(t, c) : c \in Changes} \cup
  UNION {{[t EXCEPT !.subs[n] = Change(t.subs[n], c)] : c \in Changes} :
           n \in DOMAIN t.subs}
Few(t) == {t, Change(t, "m"), Change(t, "s")}

Give(n, t) == n :> [t |-> t]
Nest(n, g) == n :> [g |-> g]

\* requests: name -> [t |-> design] or name -> [g |-> requests]
Singles ==
  UNION {{Give(n, t) : t \in Variants(Saved.subs[n])} : n \in {"x", "y", "z"}}
  \cup UNION {{Nest(a, Give(b, t)) : t \in Variants(Inside.subs[b])} :
                a \in {"x", "z"}, b \in {"x", "z"}}
Unused ==
  {Give("n", Inside), Give("w", Inside), Nest("x", Give("w", Leaf("B", 3))),
   Nest("n", Give("x", Leaf("B", 3))), Nest("y", Give("x", Leaf("B", 3))),
   Nest("w", Give("x", Leaf("B", 3))), Give("x", Inside.subs.x),
   Nest("x", <<>>), <<>>}
Pairs ==
  {Give("x", t) @@ Give("z", u) : t \in Few(Inside), u \in Few(Inside)} \cup
  {Give("x", t) @@ Give("y", u) : t \in Few(Inside), u \in Few(Leaf("A", 5))}
  \cup
  {Nest("x", Give("x", t) @@ Give("z", u)) @@ g :
      t \in Few(Leaf("B", 3)), u \in Few(Leaf("B", 4)),
      g \in {<<>>, Give("y", Change(Leaf("A", 5), "m")),
             Give("w", Inside), Give("y", Change(Leaf("A", 5), "s"))}} \cup
  {Nest("x", Give("x", t)) @@ Nest("z", Give("x", u)) :
      t \in Few(Leaf("B", 3)), u \in Few(Leaf("B", 3))} \cup
  (IF Deep THEN
     {Give("x", t) @@ Give("z", u) : t \in Variants(Inside),
                                     u \in Variants(Inside)} \cup
     {Nest("x", Give("x", t)) @@ Give("z", u) :
        t \in Variants(Leaf("B", 3)), u \in Variants(Inside)}
   ELSE {})
Requests == Singles \cup Unused \cup Pairs

VARIABLES req, target
vars == <<req, target>>
Init == \/ req \in Requests /\ target = "A"
        \/ req \in Unused /\ target = "B"
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* place the replacements on the heap, one after the other
RECURSIVE Place(_, _, _), PlaceAll(_, _, _, _)
PlaceAll(h, g, names, acc) ==
  IF names = <<>> THEN [h |-> h, mods |-> acc]
  ELSE LET n == Head(names)
           r == Place(h, g[n], 0)
       IN PlaceAll(r.h, g, Tail(names), acc @@ (n :> r.m))
Place(h, e, u) ==
  IF "t" \in DOMAIN e
  THEN LET r == LoadAs(h, StoredOf(e.t), <<>>, 0)
       IN [h |-> r.h, m |-> [id |-> r.id, nest |-> <<>>]]
  ELSE LET r == PlaceAll(h, e.g, SetToSeqLocal(DOMAIN e.g), <<>>)
       IN [h |-> r.h, m |-> [id |-> 0, nest |-> r.mods]]

Answer ==
  LET p == PlaceAll(<<NewObj(target)>>, req, SetToSeqLocal(DOMAIN req), <<>>)
      r == Load(p.h, 1, StoredOf(Saved), p.mods)
  IN [ok |-> r.ok, tree |-> IF r.ok THEN Stored(r.h, 1) ELSE StoredOf(Saved)]

----------------------------------------------------------------------------
\* what the statement says about the result, independently of Load
RECURSIVE Matches(_, _, _)
Matches(new, old, g) ==
  /\ DOMAIN new.deps = DOMAIN old.deps
  /\ new.dat = old.dat /\ new.conf.s = old.conf.s /\ new.conf.m = old.conf.m
  /\ \A n \in DOMAIN new.deps :
       /\ IF n \notin DOMAIN g THEN new.deps[n] = old.deps[n]
          ELSE IF "t" \in DOMAIN g[n] THEN new.deps[n] = StoredOf(g[n].t)
          ELSE Matches(new.deps[n], old.deps[n], g[n].g)
       /\ new.conf.subs[n] = new.deps[n].conf
  /\ \A n \in DOMAIN new.conf.subs \ DOMAIN new.deps :
       new.conf.subs[n] = old.conf.subs[n]
Complete == LET a == Answer
            IN a.ok => Matches(a.tree, StoredOf(Saved), req)
CompatibleIsReflexive == Compatible(ConfOf(Saved), ConfOf(Saved))
Emit == LET a == Answer
        IN PrintT(ToJson([saved |-> Saved, req |-> req, target |-> target,
                          ok |-> a.ok, tree |-> a.tree]))

----------------------------------------------------------------------------
\* compatibility of pairs of configured components
InitPairs == \E t \in Variants(Inside), u \in Variants(Inside) :
               /\ req = [t |-> t, u |-> u]
               /\ target = "pair"
               /\ (Deep \/ t = Inside \/ u = Inside \/ t.muts # Inside.muts)
SpecPairs == InitPairs /\ [][Next]_vars
EmitPair == PrintT(ToJson([t |-> req.t, u |-> req.u,
                      ok |-> Compatible(ConfOf(req.t), ConfOf(req.u))]))
=============================================================================
