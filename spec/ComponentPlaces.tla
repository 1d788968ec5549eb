--------------------------- MODULE ComponentPlaces ---------------------------
(***************************************************************************)
(* Saving components to places that lie within each other (P06): a         *)
(* component stored at a place stores its sub components in directories    *)
(* below.  Nothing that is stored is replaced without an explicit request. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Objects
Roots == {<<"p">>, <<"p", "x">>, <<"p", "x", "y">>}

\* the sub components (as relative paths) of the objects saved
Subs(o) == CASE o = "leaf" -> {}
             [] o = "x" -> {<<"x">>}
             [] o = "xy" -> {<<"x">>, <<"x", "y">>}
             [] OTHER -> {<<"x">>, <<"y">>}
Paths(o, l) == {l} \cup {l \o s : s \in Subs(o)}
IsBelow(p, l) == Len(p) >= Len(l) /\ SubSeq(p, 1, Len(l)) = l

\* held: place -> [obj: what was saved there, at: where it was saved from
\* the root of that object, whole: still as it was saved]
VARIABLES held, dirty, hist
vars == <<held, dirty, hist>>
Init == held = <<>> /\ dirty = {} /\ hist = <<>>

Save(o, l, ow, k) ==
  LET need == Paths(o, l)
      ok == ow \/ need \cap DOMAIN held = {}
      new == [p \in need |-> [obj |-> o, k |-> k,
                              at |-> SubSeq(p, Len(l) + 1, Len(p)),
                              whole |-> TRUE]]
      \* what contains a replaced place is not as it was any more
      hit == {p \in DOMAIN held \ need :
                \E q \in need \cap DOMAIN held :
                  \E s \in Subs(held[p].obj) :
                     /\ IsBelow(s, held[p].at) /\ s # held[p].at
                     /\ q = p \o SubSeq(s, Len(held[p].at) + 1, Len(s))}
      old == [p \in DOMAIN held \ need |->
                IF p \in hit THEN [held[p] EXCEPT !.whole = FALSE]
                ELSE held[p]]
  IN /\ need \cap dirty = {}
     /\ held' = IF ok THEN old @@ new ELSE held
     /\ dirty' = IF ok THEN dirty ELSE dirty \cup (need \ DOMAIN held)
     /\ hist' = Append(hist,
          [o |-> o, l |-> l, ow |-> ow, ok |-> ok,
           held |-> {[p |-> p, v |-> held'[p]] : p \in DOMAIN held'}])

Next == /\ Len(hist) < N
        /\ \E o \in Objects, l \in Roots, ow \in BOOLEAN :
             Save(o, l, ow, Len(hist) + 1)
Spec == Init /\ [][Next]_vars
NoSilentOverwrite ==
  [][\A p \in DOMAIN held : p \in DOMAIN held' /\
       (held'[p].k # held[p].k => hist'[Len(hist')].ow)]_vars
EmitHist == Len(hist) = N => PrintT(ToJson(hist))
=============================================================================
