------------------------------ MODULE TrackSources ------------------------------
(* Hypotheses whose sources are constrained to a straight line: the parameters
   each source gets (egenerator/model/multi_source/track, .../muon).

   Directions are multiples of 90 degrees, so that all positions are exact.
   A particle of zenith 0 flies downwards: direction (0, 0, -1); with zenith
   90 and azimuth 0 towards (-1, 0, 0).  It travels with the speed of light,
   times are reported as <<time, distance>>: time + distance / c.

   "track": a track segment between two distances from the anchor point, one
            cascade at the anchor point, further cascades at given distances,
            and systematic parameters shared by all sources
   "multi": cascades equally spaced over 1000 m around the point of closest
            approach to the detector centre; those further than 700 m away in
            any coordinate have no energy                                   *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS Model, MaxCascades, MaxSys

VARIABLES cascades,   \* number of cascades
          sys,        \* number of systematic parameters
          dir,        \* <<zenith, azimuth>> in units of 90 degrees
          pos, time,  \* anchor / vertex
          seg,        \* distances <<start, end>> of the track
          dist,       \* distances of the further cascades
          step        \* number of hypotheses drawn
vars == <<cascades, sys, dir, pos, time, seg, dist, step>>

Dir == CASE dir[1] = 0 -> <<0, 0, -1>>
         [] dir[1] = 2 -> <<0, 0, 1>>
         [] dir[1] = 1 /\ dir[2] = 0 -> <<-1, 0, 0>>
         [] dir[1] = 1 /\ dir[2] = 1 -> <<0, -1, 0>>
         [] dir[1] = 1 /\ dir[2] = 2 -> <<1, 0, 0>>
         [] dir[1] = 1 /\ dir[2] = 3 -> <<0, 1, 0>>
Coords == {-900, -650, -40, 0, 120, 640}
Distances == {-300, -20, 0, 70, 400}

At(s) == [i \in 1..3 |-> RAdd(RI(pos[i]), RMul(s, RI(Dir[i])))]
Vertex(s) == [x |-> At(s), t |-> <<RI(time), s>>]

\* "track": source -> [vertex, energy: number of the energy parameter]
Track ==
  [name |-> "track", v |-> Vertex(RI(seg[1])), length |-> seg[2] - seg[1]]
Cascade(k) ==
  [name |-> "cascade", v |-> Vertex(RI(IF k = 0 THEN 0 ELSE dist[k])),
   k |-> k]

\* "multi"
Closest == LET RECURSIVE F(_)
               F(i) == IF i = 0 THEN 0 ELSE F(i - 1) - Dir[i] * pos[i]
           IN F(3)
Spacing(k) == IF cascades = 1 THEN RI(-500)
              ELSE RAdd(RI(-500), R(1000 * k, cascades - 1))
Multi(k) ==
  LET s == RAdd(RI(Closest), Spacing(k))
      v == Vertex(s)
  IN [name |-> "cascade", v |-> v, k |-> k,
      dark |-> \E i \in 1..3 : \/ RLess(RI(700), v.x[i])
                               \/ RLess(v.x[i], RI(-700))]

Sources ==
  IF Model = "track"
  THEN <<Track>> \o [k \in 1..cascades |-> Cascade(k - 1)]
  ELSE [k \in 1..cascades |-> Multi(k - 1)]

----------------------------------------------------------------------------
\* all sources lie on the line, at the right time
OnLine ==
  \A i \in DOMAIN Sources :
    \A j \in 1..3 : \A k \in 1..3 :
      LET v == Sources[i].v.x
      IN RMul(RSub(v[j], RI(pos[j])), RI(Dir[k]))
           = RMul(RSub(v[k], RI(pos[k])), RI(Dir[j]))
\* the point of closest approach is the one nearest to the centre
Nearest ==
  Model = "multi" =>
    LET n(s) == LET RECURSIVE F(_)
                    F(i) == IF i = 0 THEN 0
                            ELSE F(i - 1) + (pos[i] + s * Dir[i]) ^ 2
                IN F(3)
    IN \A d \in {-7, -1, 1, 5} : n(Closest) < n(Closest + d)

Init ==
  /\ cascades = 1 /\ sys = 0 /\ dir = <<0, 0>> /\ pos = <<0, 0, 0>>
  /\ time = 0 /\ seg = <<0, 0>> /\ dist = [k \in 1..MaxCascades |-> 0]
  /\ step = 0
Next ==
  /\ \E c \in {RandomElement((IF Model = "track" THEN 0 ELSE 1)
                             ..MaxCascades)} : cascades' = c
  /\ \E s \in {RandomElement(0..MaxSys)} : sys' = s
  /\ \E d \in {RandomElement({<<0, 0>>, <<0, 3>>, <<2, 1>>}
                              \cup {<<1, a>> : a \in 0..3})} : dir' = d
  /\ \E p \in {RandomElement(Coords \X Coords \X Coords)} : pos' = p
  /\ \E t \in {RandomElement({0, -500, 9800})} : time' = t
  /\ \E a \in {RandomElement(Distances)} :
       \E b \in {RandomElement(Distances)} : seg' = <<a, b>>
  /\ \E d \in {TLCEval([k \in 1..MaxCascades |->
                          RandomElement(Distances)])} : dist' = d
  /\ step' = step + 1
Spec == Init /\ [][Next]_vars

Emit ==
  step > 0 =>
  PrintT(ToJson([cascades |-> cascades, sys |-> sys, dir |-> dir,
                 pos |-> pos, time |-> time, seg |-> seg, dist |-> dist,
                 sources |-> Sources]))
================================================================================
