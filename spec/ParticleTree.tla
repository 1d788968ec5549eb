---------------------------- MODULE ParticleTree ----------------------------
(***************************************************************************)
(* Light sources of an event's particle tree (property P26).               *)
(*                                                                         *)
(* The simulation walks through the tree of particles of an event and      *)
(* collects those it can simulate.  Nodes are numbered such that a parent  *)
(* has a smaller number than its daughters (0: a primary particle); the    *)
(* daughters of a particle are ordered by number.                          *)
(*                                                                         *)
(*   cascade   emits light and can be simulated (with all of its daughters)*)
(*   vertex    must be simulated through its daughters                     *)
(*   neutrino  dark: it is fine if nothing of it is simulated              *)
(*   muon      can not be simulated at all                                 *)
(*                                                                         *)
(* A particle that is too weak (soft) or too far away is dropped, together *)
(* with everything below it.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes,        \* number of particles of the largest trees
          Small         \* all trees are enumerated (else: random ones)

Kinds == {"cascade", "vertex", "neutrino", "muon"}
Sights == {"seen", "soft", "far"}
Reduced == IF Small THEN {"seen", "soft"} ELSE Sights

VARIABLES n, parent, kind, sight, stack, found, status

vars == <<n, parent, kind, sight, stack, found, status>>

Range(s) == {s[i] : i \in 1..Len(s)}

Children(i) == {j \in 1..n : parent[j] = i}

RECURSIVE Ordered(_)
Ordered(S) ==
    IF S = {} THEN <<>>
    ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
         IN <<m>> \o Ordered(S \ {m})

Daughters(i) == Ordered(Children(i))

(* ------------------------------ declarative ---------------------------- *)
RECURSIVE Ancestors(_)
Ancestors(i) == IF parent[i] = 0 THEN {}
                ELSE {parent[i]} \cup Ancestors(parent[i])

(* reached by the walk: nothing above was dropped or simulated as a whole  *)
Reached == {i \in 1..n :
    /\ sight[i] = "seen"
    /\ \A a \in Ancestors(i) : sight[a] = "seen" /\ kind[a] # "cascade"}

Sources == {i \in Reached : kind[i] = "cascade"}

(* light that would be lost silently                                       *)
Blind == {i \in Reached :
    \/ kind[i] = "muon"
    \/ kind[i] = "vertex" /\ Children(i) = {}}

(* -------------------------------- the walk ----------------------------- *)
Top == stack[1]

Init ==
    /\ n = 0 /\ parent = <<>> /\ kind = <<>> /\ sight = <<>>
    /\ stack = <<>> /\ found = <<>> /\ status = "new"

(* a random element that is drawn anew in every behaviour                  *)
Pick(S) == RandomElement({x \in S : status = "new"})

HasDaughter(i) == \E j \in (i + 1)..n' : parent'[j] = i

Grow ==
    /\ status = "new"
    /\ n' \in (IF Small THEN 0..Nodes ELSE {Pick(1..Nodes)})
    /\ parent' \in (IF Small THEN {f \in [1..n' -> 0..n'] :
                                      \A i \in 1..n' : f[i] < i}
                     ELSE {[i \in 1..n' |-> Pick({j \in 0..(i - 1) :
                                        j = 0 => i % 3 # 0})]})
    /\ kind' \in (IF Small THEN [1..n' -> Kinds]
                   ELSE LET bad == Pick(1..6) = 1
                        IN {[i \in 1..n' |->
                              IF HasDaughter(i)
                              THEN Pick(IF bad THEN Kinds
                                        ELSE IF i % 2 = 0
                                             THEN {"vertex", "neutrino",
                                                   "cascade"}
                                             ELSE {"vertex", "neutrino"})
                              ELSE Pick(IF bad THEN Kinds
                                        ELSE {"cascade", "neutrino"})]})
    /\ sight' \in (IF Small THEN [1..n' -> Reduced]
                    ELSE {[i \in 1..n' |->
                             LET r == Pick(1..10)
                             IN IF r = 1 THEN "soft"
                                ELSE IF r = 2 THEN "far" ELSE "seen"]})
    /\ stack' = Ordered({i \in 1..n' : parent'[i] = 0})
    /\ found' = <<>>
    /\ status' = "walk"

Drop ==
    /\ status = "walk" /\ stack # <<>> /\ sight[Top] # "seen"
    /\ stack' = Tail(stack)
    /\ UNCHANGED <<n, parent, kind, sight, found, status>>

Take ==
    /\ status = "walk" /\ stack # <<>> /\ sight[Top] = "seen"
    /\ kind[Top] = "cascade"
    /\ found' = Append(found, Top)
    /\ stack' = Tail(stack)
    /\ UNCHANGED <<n, parent, kind, sight, status>>

Descend ==
    /\ status = "walk" /\ stack # <<>> /\ sight[Top] = "seen"
    /\ \/ kind[Top] = "neutrino"
       \/ kind[Top] = "vertex" /\ Children(Top) # {}
    /\ stack' = Daughters(Top) \o Tail(stack)
    /\ UNCHANGED <<n, parent, kind, sight, found, status>>

Refuse ==
    /\ status = "walk" /\ stack # <<>> /\ sight[Top] = "seen"
    /\ \/ kind[Top] = "muon"
       \/ kind[Top] = "vertex" /\ Children(Top) = {}
    /\ status' = "refused"
    /\ UNCHANGED <<n, parent, kind, sight, stack, found>>

Finish ==
    /\ status = "walk" /\ stack = <<>>
    /\ status' = "done"
    /\ UNCHANGED <<n, parent, kind, sight, stack, found>>

Next == Grow \/ Drop \/ Take \/ Descend \/ Refuse \/ Finish

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
OnceEach == Cardinality(Range(found)) = Len(found)

OnlySources == Range(found) \subseteq Sources

Complete == status = "done" => Range(found) = Sources /\ Blind = {}

NotSilent == status = "refused" => Blind # {}

(* nothing is simulated twice: no source lies below another one            *)
Disjoint ==
    \A i, j \in Range(found) : i \notin Ancestors(j)

Terminates == status = "walk" => ENABLED Next

Emit ==
    status \in {"done", "refused"} =>
        PrintT("tree" \o ToJson([n |-> n, parent |-> parent, kind |-> kind,
                                 sight |-> sight, found |-> found,
                                 status |-> status]))
=============================================================================
