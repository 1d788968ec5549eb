------------------------------ MODULE Component ------------------------------
(***************************************************************************)
(* Configurable components (manager/component.py): what a component        *)
(* records when it is configured, what is stored when it is saved, and     *)
(* what loading gives, with and without exchanged sub components           *)
(* (P05, P06, P07).                                                        *)
(*                                                                         *)
(* heap:   sequence of objects                                             *)
(*         [cls, st, conf, dat, deps]   deps: name -> position in the heap *)
(* conf:   [cls, ver, s, m, chk, subs, deps, muts]  subs: name -> conf     *)
(* stored: [conf, dat, deps]                    deps: name -> stored       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoConf == [cls |-> "none"]
NewObj(c) == [cls |-> c, st |-> "new", conf |-> NoConf, dat |-> 0,
              deps |-> <<>>]

----------------------------------------------------------------------------
\* what a caller passes to configure(); `passed' is a set of
\* [how, key, name, id]: the component `id' is passed directly (keyword
\* name), in a list (keyword l, names l_0000, ...) or in a dictionary
Names(a) == {p.name : p \in a.passed}
ById(a, n) == (CHOOSE p \in a.passed : p.name = n).id

ConfigureOk(h, o, a) ==
  /\ h[o].st = "new"
  /\ \A p \in a.passed : h[p.id].st = "ok"
  /\ \A p, q \in a.passed : p.name = q.name => p = q
  /\ (a.inner => "inner" \notin Names(a))
  /\ a.deps \subseteq Names(a)
  /\ a.muts \subseteq Names(a)
  /\ a.fault = "none"

Inner == [cls |-> "A", ver |-> 1, s |-> 7, m |-> 7, chk |-> 7,
          subs |-> <<>>, deps |-> {}, muts |-> {}]

SubNames(a) == Names(a) \cup (IF a.inner THEN {"inner"} ELSE {})

Configured(h, o, a) ==
  LET conf == [cls |-> h[o].cls, ver |-> 1, s |-> a.s, m |-> a.m,
               chk |-> a.chk,
               subs |-> [n \in SubNames(a) |->
                          IF n = "inner" /\ a.inner THEN Inner
                          ELSE h[ById(a, n)].conf],
               deps |-> a.deps \cup (IF a.inner THEN {"inner"} ELSE {}),
               muts |-> a.muts]
      h1 == IF a.inner
            THEN Append(h, [cls |-> "A", st |-> "ok", conf |-> Inner,
                            dat |-> 7, deps |-> <<>>])
            ELSE h
  IN [h1 EXCEPT ![o] = [cls |-> h[o].cls, st |-> "ok", conf |-> conf,
                        dat |-> a.d,
                        deps |-> [n \in conf.deps |->
                                   IF n = "inner" /\ a.inner THEN Len(h1)
                                   ELSE ById(a, n)]]]

----------------------------------------------------------------------------
RECURSIVE Stored(_, _)
Stored(h, o) == [conf |-> h[o].conf, dat |-> h[o].dat,
                 deps |-> [n \in DOMAIN h[o].deps |->
                             Stored(h, h[o].deps[n])]]

RECURSIVE Compatible(_, _)
Compatible(c, d) ==
  /\ c.cls = d.cls /\ c.s = d.s /\ c.chk = d.chk
  /\ DOMAIN c.subs = DOMAIN d.subs
  /\ \A n \in DOMAIN c.subs :
       n \in c.muts \/ Compatible(c.subs[n], d.subs[n])

\* the same stored component, written by another version of the package
RECURSIVE AgedConf(_), Aged(_)
AgedConf(c) == [c EXCEPT !.ver = 0,
                         !.subs = [n \in DOMAIN c.subs |->
                                     AgedConf(c.subs[n])]]
Aged(t) == [conf |-> AgedConf(t.conf), dat |-> t.dat,
            deps |-> [n \in DOMAIN t.deps |-> Aged(t.deps[n])]]

----------------------------------------------------------------------------
\* mods: name -> [id |-> i, nest |-> <<>>]  (i > 0: this object)
\*            or [id |-> 0, nest |-> mods]
\* Load gives [ok, h, id]; the loaded object is new, except at the top,
\* where it is stored in `at'
RECURSIVE LoadAs(_, _, _, _), LoadDeps(_, _, _, _, _)

SetToSeqLocal(S) == CHOOSE f \in [1..Cardinality(S) -> S] :
                      \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]

\* loads the dependent sub components names[1], ...; acc: [ok, h, ids, conf]
LoadDeps(h, t, mods, names, acc) ==
  IF names = <<>> \/ ~acc.ok THEN acc
  ELSE
    LET n == Head(names)
        given == n \in DOMAIN mods
        nested == given /\ mods[n].id = 0
        r == LoadAs(acc.h, t.deps[n],
                    IF nested THEN mods[n].nest ELSE <<>>, 0)
        i == mods[n].id
        accepted == /\ h[i].st = "ok"
                    /\ \/ n \in t.conf.muts
                       \/ Compatible(t.deps[n].conf, h[i].conf)
        id == IF given /\ ~nested THEN i ELSE r.id
        conf == IF given THEN [acc.conf EXCEPT !.subs[n] = r.h[id].conf]
                ELSE acc.conf
    IN IF ~r.ok \/ (given /\ ~nested /\ ~accepted)
       THEN [acc EXCEPT !.ok = FALSE]
       ELSE LoadDeps(h, t, mods, Tail(names),
                     [ok |-> TRUE, h |-> r.h,
                      ids |-> acc.ids @@ (n :> id), conf |-> conf])

LoadAs(h, t, mods, at) ==
  LET start == [ok |-> DOMAIN mods \subseteq DOMAIN t.deps, h |-> h,
                ids |-> <<>>, conf |-> t.conf]
      r == LoadDeps(h, t, mods, SetToSeqLocal(DOMAIN t.deps), start)
      obj == [cls |-> t.conf.cls, st |-> "ok", conf |-> r.conf,
              dat |-> t.dat, deps |-> r.ids]
  IN IF ~r.ok THEN [ok |-> FALSE, h |-> h, id |-> at]
     ELSE IF at = 0
     THEN [ok |-> TRUE, h |-> Append(r.h, obj), id |-> Len(r.h) + 1]
     ELSE [ok |-> TRUE, h |-> [r.h EXCEPT ![at] = obj], id |-> at]

Load(h, o, t, mods) ==
  IF h[o].st # "new" \/ h[o].cls # t.conf.cls
  THEN [ok |-> FALSE, h |-> h, id |-> o]
  ELSE LoadAs(h, t, mods, o)
=============================================================================
