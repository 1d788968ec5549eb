---------------------------- MODULE ComponentHist ----------------------------
(***************************************************************************)
(* Histories of constructing, configuring, changing, saving and loading    *)
(* components.  Random: draw the arguments randomly (simulation).          *)
(***************************************************************************)
EXTENDS Component, Json

CONSTANTS N,        \* length of the histories
          Classes, Vals, Locs,
          Ops,      \* operations that take place
          MaxObj,   \* named objects
          Random, Emit

VARIABLES h,     \* heap
          named, \* objects known by name: sequence of positions in the heap
          loc,   \* location -> stored component or None
          hist
vars == <<h, named, loc, hist>>

None == [conf |-> NoConf]
Init == h = <<>> /\ named = <<>> /\ loc = [l \in Locs |-> None] /\ hist = <<>>

Pick(S) == IF Random THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Known == 1..Len(named)

\* the observation of a named object k in heap g
Obs(g, k) == IF g[k].st = "new" THEN [st |-> "new", cls |-> g[k].cls]
             ELSE [st |-> "ok", cls |-> g[k].cls, tree |-> Stored(g, k)]

Did(op, ok, g, nm) ==
  hist' = Append(hist, [op |-> op, ok |-> ok,
                        exp |-> [i \in 1..Len(nm) |-> Obs(g, nm[i])]])

New(c) ==
  /\ Len(named) < MaxObj
  /\ h' = Append(h, NewObj(c))
  /\ named' = Append(named, Len(h) + 1)
  /\ UNCHANGED loc
  /\ Did([name |-> "new", cls |-> c], TRUE, h', named')

Passed(i, how, key, name) == [how |-> how, key |-> key, name |-> name,
                              id |-> i]
\* slots by which components can be passed; 0: not used
Slots == {"x", "y", "l_0000d", "l0", "l1", "kx", "kl", "kz", "jz", "ji"}
OfSlot(s, i) ==
  CASE s = "x" -> Passed(i, "direct", "x", "x")
    [] s = "y" -> Passed(i, "direct", "y", "y")
    [] s = "l_0000d" -> Passed(i, "direct", "l_0000", "l_0000")
    [] s = "l0" -> Passed(i, "list", "l", "l_0000")
    [] s = "l1" -> Passed(i, "list", "l", "l_0001")
    [] s = "kx" -> Passed(i, "dict", "k", "x")
    [] s = "kl" -> Passed(i, "dict", "k", "l_0000")
    [] s = "kz" -> Passed(i, "dict", "k", "z")
    [] s = "jz" -> Passed(i, "dict", "j", "z")
    [] OTHER -> Passed(i, "dict", "j", "inner")

\* which sets of slots are used together (l1 needs l0)
SlotSets == {S \in SUBSET Slots : Cardinality(S) <= 3 /\
                                  ("l1" \in S => "l0" \in S)}

AllNames == {"x", "y", "l_0000", "l_0001", "z"}

Configure(o, S, f, s, m, c, inner, depS, mutS, fault) ==
  LET k == named[o]
      a == [passed |-> {OfSlot(t, named[f[t]]) : t \in S}, s |-> s, m |-> m,
            chk |-> c, d |-> Len(hist), inner |-> inner,
            deps |-> depS \cap {OfSlot(t, 1).name : t \in S},
            muts |-> IF fault = "mutable" THEN mutS
                     ELSE mutS \cap {OfSlot(t, 1).name : t \in S},
            fault |-> IF fault = "mutable" THEN "none" ELSE fault]
      ok == ConfigureOk(h, k, a)
  IN \* the same component twice under one name is not specified
     /\ \A p, q \in a.passed : p.name = q.name /\ p.id = q.id => p = q
     /\ h' = IF ok THEN Configured(h, k, a) ELSE h
     /\ UNCHANGED <<named, loc>>
     /\ Did([name |-> "configure", o |-> o,
             a |-> [a EXCEPT !.passed = {[how |-> p.how, key |-> p.key,
                       name |-> p.name,
                       id |-> CHOOSE i \in Known : named[i] = p.id] :
                       p \in @}]], ok, h', named)

Update(o, v) ==
  LET k == named[o]
  IN /\ h[k].st = "ok"
     /\ h' = [h EXCEPT ![k].conf.m = v]
     /\ UNCHANGED <<named, loc>>
     /\ Did([name |-> "update", o |-> o, m |-> v], TRUE, h', named)

Save(o, l, ow) ==
  LET k == named[o]
      ok == h[k].st = "ok" /\ (loc[l] = None \/ ow)
  IN /\ loc' = IF ok THEN [loc EXCEPT ![l] = Stored(h, k)] ELSE loc
     /\ UNCHANGED <<h, named>>
     /\ Did([name |-> "save", o |-> o, l |-> l, ow |-> ow], ok, h, named)

\* a replacement of the sub component `n' (and one level deeper)
ModsFor(n1, i1, n2, i2) ==
  IF n1 = "" THEN <<>>
  ELSE IF n2 = "" THEN n1 :> [id |-> i1, nest |-> <<>>]
  ELSE n1 :> [id |-> 0, nest |-> n2 :> [id |-> i2, nest |-> <<>>]]
Real(mods) == [n \in DOMAIN mods |->
  IF mods[n].id > 0 THEN [id |-> named[mods[n].id], nest |-> <<>>]
  ELSE [id |-> 0, nest |-> [q \in DOMAIN mods[n].nest |->
          [id |-> named[mods[n].nest[q].id], nest |-> <<>>]]]]

LoadOp(o, l, mods) ==
  LET k == named[o]
      r == Load(h, k, loc[l], Real(mods))
      ok == loc[l] # None /\ r.ok
  IN /\ h' = IF ok THEN r.h ELSE h
     /\ UNCHANGED <<named, loc>>
     /\ Did([name |-> "load", o |-> o, l |-> l, mods |-> mods], ok, h',
            named)

Age(l) ==
  /\ loc[l] # None
  /\ loc' = [loc EXCEPT ![l] = Aged(@)]
  /\ UNCHANGED <<h, named>>
  /\ Did([name |-> "age", l |-> l], TRUE, h, named)

Do(op) == op \in Ops
DepNames == AllNames \cup {"inner"}
Fresh == {o \in Known : h[named[o]].st = "new"}
Ready == {o \in Known : h[named[o]].st = "ok"}
Mostly(S) == IF S # {} /\ (~Random \/ RandomElement(1..4) > 1)
             THEN S ELSE Known
\* try operations that have to be refused less often
Target(l) == {o \in Fresh : loc[l] = None \/ ~Random \/
                            h[named[o]].cls = loc[l].conf.cls}
Sometimes(S) == IF Random /\ S = {}
                THEN IF RandomElement(1..12) = 1 THEN Known ELSE {}
                ELSE IF Random /\ RandomElement(1..8) > 1 THEN S ELSE Known
Often(S, T) == IF S # {} /\ (~Random \/ RandomElement(1..6) > 1) THEN S ELSE T
\* refers to the state: TLC evaluates a constant expression only once
Heads == ~Random \/ RandomElement(1..(IF Len(hist) < 0 THEN 1 ELSE 2)) = 1
Fitting(t, n) == IF n \notin DOMAIN t.deps THEN {}
  ELSE {i \in Ready : Compatible(t.deps[n].conf, h[named[i]].conf)}
Holding == {l \in Locs : loc[l] # None}

Faults == {"none", "clash", "forget", "wrong", "unknown", "raise", "mutable"}

Next ==
  /\ Len(hist) < N
  /\ \/ \E c \in Pick(Classes) : New(c)
     \/ /\ Do("configure")
        /\ \E o \in Pick(Sometimes(Fresh)) :
           \E S \in Pick(IF Ready = {} THEN {{}} ELSE SlotSets) :
           \E f \in Pick([S -> Mostly(Ready)]) :
           \E s \in Pick(Often({1}, Vals)) : \E m \in Pick(Vals) :
           \E c \in Pick(Often({1}, Vals)) : \E i \in Pick({TRUE, FALSE, FALSE}) :
           \E d \in Pick({AllNames, AllNames \ {"x"}}) :
           \E mu \in Pick({{}, {"x"}, {"z"}, {"l_0000"}}) :
           \E ft \in Pick(Faults) :
             Configure(o, S, f, s, m, c, i, d, mu,
                       IF Random /\ RandomElement(1..4) > 1
                       THEN "none" ELSE ft)
     \/ /\ Do("configure0")     \* without components, fewer possibilities
        /\ \E o \in Known : \E s, c \in Vals :
             Configure(o, {}, <<>>, s, 1, c, FALSE, {}, {}, "none")
     \/ /\ Do("configure1")     \* with one component, fewer possibilities
        /\ \E o, i \in Known : \E t \in {"x", "l0", "kz"} :
           \E d \in {{}, AllNames} :
             Configure(o, {t}, t :> i, 1, 1, 1, FALSE, d, {}, "none")
     \/ /\ Do("update")
        /\ \E o \in Pick(Ready) : \E v \in Pick(Vals) : Update(o, v)
     \/ /\ Do("save")
        /\ \E o \in Pick(Mostly(Ready)) : \E l \in Pick(Locs) :
           \E ow \in Pick(BOOLEAN) : Save(o, l, ow)
     \/ /\ Do("load")
        /\ \E l \in Pick(IF Random /\ Holding # {} THEN Holding ELSE Locs) :
           \E o \in Pick(Sometimes(Target(l))) :
             LoadOp(o, l, <<>>)
     \/ /\ Do("exchange")
        /\ \E l \in Pick(IF Random THEN Holding ELSE Locs) :
           \E o \in Pick(Sometimes(Target(l))) :
           \E n1 \in Pick(Often(DOMAIN loc[l].deps, DepNames)) :
           \E n2 \in Pick(Often(IF n1 \in DOMAIN loc[l].deps /\ Heads
                                THEN DOMAIN loc[l].deps[n1].deps ELSE {""},
                                {"", "x"})) :
           \E i1 \in Pick(Often(Fitting(loc[l], n1), Known)) :
           \E i2 \in Pick(Often(IF n1 \in DOMAIN loc[l].deps
                                THEN Fitting(loc[l].deps[n1], n2) ELSE {},
                                Known)) :
             LoadOp(o, l, ModsFor(n1, i1, n2, i2))
     \/ /\ Do("age")
        /\ \E l \in Pick(Locs) : Age(l)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* a component is configured at most once: its settings never change again,
\* and everything it depends on is configured and recorded
Once == [][\A i \in 1..Len(h) : h[i].st = "ok" =>
            /\ h'[i].st = "ok"
            /\ [h'[i].conf EXCEPT !.m = 0] = [h[i].conf EXCEPT !.m = 0]
            /\ h'[i].dat = h[i].dat /\ h'[i].deps = h[i].deps]_vars
Closed == \A i \in 1..Len(h) : h[i].st = "ok" =>
            /\ \A n \in DOMAIN h[i].deps : h[h[i].deps[n]].st = "ok"
            /\ DOMAIN h[i].deps = h[i].conf.deps
            /\ h[i].conf.deps \subseteq DOMAIN h[i].conf.subs
            /\ h[i].conf.cls = h[i].cls
\* what is stored is replaced only by an explicit request
NoSilentOverwrite ==
  [][\A l \in Locs : (loc[l] # None /\ loc'[l] # loc[l]) =>
       LET e == hist'[Len(hist')]
       IN e.op.name = "age" \/ (e.op.name = "save" /\ e.op.ow)]_vars
\* loading gives what is stored
RoundTrip ==
  [][Len(hist') > Len(hist) =>
      LET e == hist'[Len(hist')]
      IN (e.op.name = "load" /\ e.op.mods = <<>> /\ e.ok) =>
           Stored(h', named'[e.op.o]) = loc[e.op.l]]_vars
EmitHist == Emit /\ Len(hist) = N => PrintT(ToJson(hist))
=============================================================================
