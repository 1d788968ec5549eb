------------------------------ MODULE EventLabels ------------------------------
(* Labels of events (egenerator/data/modules/labels).

   A table has a row for each event.  Directions are along the axes and
   energies are told by the distance (in meters) between the vertex of a
   cascade of that energy and its maximum, so that all positions are integers.
   The light needs time for this distance, which is kept apart.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxEvents, MaxCascades, MaxSnow, Small

VARIABLES rows,     \* rows[e]: labels of event e
          snow,     \* snow[e]: snowstorm parameters of event e
          lack,     \* a column that the table does not have, or ""
          opt,      \* the module and its settings
          phase
vars == <<rows, snow, lack, opt, phase>>

Modules == {"cascade", "muon", "snowcascade", "segment", "track"}
N == Len(rows)
Events == 1..N

----------------------------------------------------------------------------
(* Geometry: direction of flight for each axis *)
Dir(d) == CASE d = 1 -> <<0, 0, -1>>  [] d = 2 -> <<0, 0, 1>>
            [] d = 3 -> <<-1, 0, 0>>  [] d = 4 -> <<1, 0, 0>>
            [] d = 5 -> <<0, -1, 0>>  [] d = 6 -> <<0, 1, 0>>
Move(p, d, l) == [i \in 1..3 |-> p[i] + Dir(d)[i] * l]

\* entries: value b in unit u, for times with the distance s light travels
V(u, b) == [u |-> u, b |-> b, s |-> 0]
T(b, s) == [u |-> "t", b |-> b, s |-> s]
Pos(p) == <<V("m", p[1]), V("m", p[2]), V("m", p[3])>>
Ones(k) == [i \in 1..k |-> V("n", 1)]
Numbers(s) == [i \in DOMAIN s |-> V("n", s[i])]
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

Cascade(r) ==
  LET l == IF opt.shift THEN r.c[1] ELSE 0
  IN Pos(Move(r.p, r.d, l)) \o
       <<V("z", r.d), V("a", r.d), V("e", r.c[1]), T(r.t, l)>>
Muon(r) ==
  Pos(r.p) \o <<V("z", r.d), V("a", r.d), T(r.t, 0)>> \o
    [i \in 1..opt.num |-> V("n", Max(r.q \div opt.num, 100))]
Extra(r) == [i \in 1..opt.extra |-> V("n", r.x[i])]
Segment(r) ==
  Pos(r.p) \o <<V("z", r.d), V("a", r.d), V("n", r.q), T(r.t, 0),
                V("m", r.end), V("n", r.x[1])>>
\* maxima of the cascades become the new points of reference
First(r) == IF opt.shift /\ opt.num > 0 THEN r.c[1] ELSE 0
Dist(r, i) == r.dist[i] - First(r) + (IF opt.shift THEN r.c[i] ELSE 0)
Track(r) ==
  LET l == First(r)
  IN <<V("z", r.d), V("a", r.d)>> \o Pos(Move(r.p, r.d, l)) \o
     <<T(r.t, l), V("n", r.q), V("m", r.start - l), V("m", r.end - l),
       V("n", r.x[1])>> \o
     (IF opt.num > 0 THEN <<V("e", r.c[1])>> ELSE <<>>) \o
     Concat([i \in 1..Max(opt.num - 1, 0) |->
               <<V("e", r.c[i + 1]), V("m", Dist(r, i + 1))>>])
Storm(e) == IF opt.nsnow = 0 THEN <<>>
            ELSE IF opt.key THEN Numbers(snow[e]) ELSE Ones(opt.nsnow)
Snowy == opt.mod \in {"snowcascade", "segment", "track"}
Labels(e) ==
  LET r == rows[e]
  IN CASE opt.mod = "cascade" -> Cascade(r)
       [] opt.mod = "muon" -> Muon(r)
       [] opt.mod = "snowcascade" -> Cascade(r) \o Extra(r) \o Storm(e)
       [] opt.mod = "segment" -> Segment(r) \o Storm(e)
       [] opt.mod = "track" -> Track(r) \o Storm(e)
\* number of labels the logarithm may be configured for
Width == CASE opt.mod = "cascade" -> 7
           [] opt.mod = "muon" -> 6 + opt.num
           [] opt.mod = "snowcascade" -> 7 + opt.extra
           [] opt.mod = "segment" -> 9
           [] opt.mod = "track" -> 10 + (IF opt.num > 0
                                         THEN 2 * opt.num - 1 ELSE 0)
Total == Width + (IF Snowy THEN opt.nsnow ELSE 0)

\* events the module cannot describe; a file with one of them is skipped
Bad(e) == \/ lack # ""
          \/ Snowy /\ opt.key /\ opt.nsnow > 0 /\ Len(snow[e]) # opt.nsnow
          \/ opt.mod = "segment" /\ rows[e].start # 0
Skipped == \E e \in Events : Bad(e)

----------------------------------------------------------------------------
(* Properties *)
Done == phase = "end"
Widths == Done /\ ~Skipped => \A e \in Events : Len(Labels(e)) = Total
\* each label belongs to the event it is given for: changes of another event
\* do not matter (there is nothing to refer to but rows[e] and snow[e]), and
\* moving the point of reference leaves start and end of the track in place
Anchor(r) == Move(r.p, r.d, First(r))
SamePlaces ==
  Done /\ opt.mod = "track" => \A e \in Events :
    LET r == rows[e]
        At(x) == Move(Anchor(r), r.d, x)
    IN /\ At(r.start - First(r)) = Move(r.p, r.d, r.start)
       /\ At(r.end - First(r)) = Move(r.p, r.d, r.end)
       /\ \A i \in 2..opt.num :
            At(Dist(r, i)) =
              Move(r.p, r.d, r.dist[i] + (IF opt.shift THEN r.c[i] ELSE 0))
Unshifted ==
  Done /\ ~opt.shift =>
    \A e \in Events : \A i \in DOMAIN Labels(e) : Labels(e)[i].s = 0

----------------------------------------------------------------------------
R(S) == RandomElement(S)
RandomRow(z) ==
  TLCEval([p |-> <<R(-9..9), R(-9..9), R(-9..9)>>, d |-> R(1..6),
           t |-> R(-20..20), c |-> [i \in 1..(MaxCascades + 1) |-> R(0..5)],
           q |-> 12 * R({2, 10, 30, 200}),
           start |-> IF R(1..2) = 1 \/ z = 0 THEN 0 ELSE R(-9..9),
           end |-> R(0..40), x |-> <<R(0..9), R(0..9)>>,
           dist |-> [i \in 1..(MaxCascades + 1) |-> R(0..30)]])
RandomSnow(k) == TLCEval([i \in 1..k |-> R(-5..5)])
RandomOpt(z) ==
  TLCEval([mod |-> R(Modules), shift |-> R(BOOLEAN), num |-> R(0..MaxCascades),
           extra |-> R(0..2), nsnow |-> R(0..MaxSnow), key |-> R(1..4) # 1,
           log |-> R({"none", "no", "yes", "list"}), z |-> z])
\* "" most of the time
LackOf(o) ==
  LET own == CASE o.mod = "segment" -> {"start", "x1"}
               [] o.mod = "track" -> {"start", "x1", "q"}
               [] o.mod = "muon" -> {"q"}
               [] o.mod = "snowcascade" /\ o.extra > 0 -> {"x1", "t"}
               [] OTHER -> {"t"}
  IN IF R(1..10) = 1 THEN R(own \cup {"p1", "d", "table"}) ELSE ""
Init == /\ rows = <<>> /\ snow = <<>> /\ lack = "" /\ phase = "start"
        /\ opt = [mod |-> "none"]
NextRandom ==
  /\ phase = "start" /\ phase' = "end"
  /\ \E k \in {R(1..MaxEvents)} : \E x \in {R(1..10)} :
     \E o \in {RandomOpt(0)} :
       /\ opt' = o
       /\ rows' = TLCEval([e \in 1..k |->
                    RandomRow(IF o.mod = "segment" /\ x # 1 THEN 0 ELSE 1)])
       /\ snow' = TLCEval([e \in 1..k |->
                    RandomSnow(
                      IF x = 2 THEN R(0..(MaxSnow + 1))
                      \* as many entries in total as there should be
                      ELSE IF x = 3 /\ k > 1 /\ o.nsnow > 0 /\ e \in {1, k}
                      THEN o.nsnow + (IF (e = 1) = (o.num > 1)
                                      THEN 1 ELSE -1)
                      ELSE o.nsnow)])
       /\ lack' = TLCEval(LackOf(o))
\* all modules, directions and lengths for a single event
NextSmall ==
  /\ phase = "start" /\ phase' = "end"
  /\ opt' \in [mod : Modules, shift : BOOLEAN, num : 0..3, extra : {1},
               nsnow : {0, 1}, key : {TRUE}, log : {"no"}, z : {0}]
  /\ rows' \in {<<[p |-> <<1, 2, 3>>, d |-> d, t |-> 4, c |-> c, q |-> 360,
                   start |-> 0, end |-> 20, x |-> <<7, 8>>,
                   dist |-> <<0, 9, 12, 15>>]>> :
                     d \in 1..6, c \in {<<0, 1, 2, 3>>, <<3, 0, 5, 1>>}}
  /\ snow' = <<[i \in 1..opt'.nsnow |-> 5]>>
  /\ lack' = ""
Next == IF Small THEN NextSmall ELSE NextRandom
Spec == Init /\ [][Next]_vars
Emit == Done => PrintT(ToJson(
          [rows |-> rows, snow |-> snow, lack |-> lack, opt |-> opt,
           width |-> Width, total |-> Total,
           bad |-> [e \in Events |-> Bad(e)],
           labels |-> [e \in Events |-> IF Bad(e) THEN <<>> ELSE Labels(e)]]))
================================================================================
