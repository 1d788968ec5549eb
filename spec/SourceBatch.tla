----------------------------- MODULE SourceBatch -----------------------------
(* What a source model (egenerator/model/source) is given for a batch of
   events, and what its predictions may depend on.

   An event has a hypothesis, a time `at` to which all its times are relative
   (one cell is a fixed span of time), pulses and excluded time windows at some
   DOMs, and a read-out window.  The direction of a hypothesis may be written in
   several ways (`writing`): once more around, or as the opposite zenith on the
   opposite side.  `scale` multiplies the efficiency of all DOMs.

   A source stands for an expected rate of light at each DOM as a function of
   the time since the event: Rate.  The charge it predicts is the integral of
   this rate over the time that is not excluded (Seen), and the likelihood of a
   pulse is the rate at its time divided by that charge.  How the events, pulses
   and windows of a batch are arranged has no meaning.

   The steps change a batch in ways that either do or do not change its meaning;
   the meaning is emitted with each batch and real models are held against it. *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS NumHyps, NumDoms, Low, High, MaxEvents, MaxPulses, MaxWindows,
          Writings, Scales, Lengths, Simulated

VARIABLES batch
vars == batch

Far == IF Simulated THEN 40 ELSE 3
Cells == Low..(High - 1)
Doms == 1..NumDoms
Hyps == 1..NumHyps
Qs == IF Simulated THEN {1, 20, 400} ELSE {1}     \* twentieths
Ats == IF Simulated THEN {-3, -1, 0, 2, 5, 14} ELSE {-1, 1}
Reads == IF Simulated
         THEN {<<Low, High>>, <<Low, High + 3>>, <<Low + 2, High>>,
               <<Low - 20, High + 30>>}
         ELSE {<<Low, High>>, <<Low + 1, High>>}
Bounds == IF Simulated THEN -10..20 ELSE -1..1

Range(s) == {s[i] : i \in DOMAIN s}
\* times in the batch are absolute
Rel(e, t) == t - e.at
\* the excluded cells of a DOM, relative to the time of the event
Excluded(e, d) ==
  {c \in (Low - Far)..(High + Far) :
     \E w \in Range(e.windows) :
       w.d = d /\ Rel(e, w.a) <= c /\ c < Rel(e, w.b)}
InRead(e) == {c \in (Low - Far)..(High + Far) : e.read[1] <= c /\ c < e.read[2]}
RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN 0 ELSE Head(s).q + SumQ(Tail(s))
Measured(e, d) == SumQ(SelectSeq(e.pulses, LAMBDA p : p.d = d))

----------------------------------------------------------------------------
\* the meaning
Rate(e, d, t) == [hyp |-> e.hyp, d |-> d, t |-> t, scale |-> e.scale]
Seen(e, d) == [hyp |-> e.hyp, d |-> d, excluded |-> Excluded(e, d),
               scale |-> e.scale]
\* the likelihood of a charge depends on the one measured
Likelihood(e, d) == [seen |-> Seen(e, d), measured |-> Measured(e, d)]
Pulse(e, p) == [rate |-> Rate(e, p.d, Rel(e, p.t)), seen |-> Seen(e, p.d)]
\* noise is uniform in the read-out window
NoiseFree(e, d) ==
  LET n == Cardinality(InRead(e))
  IN R(n - Cardinality(InRead(e) \cap Excluded(e, d)), n)
NoiseCharge(e, d) == RMul(RI(Cardinality(InRead(e))), NoiseFree(e, d))
NoisePdf(e, d) == RDiv(RI(1), NoiseCharge(e, d))

Bag(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Meaning(b) ==
  Bag([i \in DOMAIN b |->
     [charge |-> [d \in Doms |-> Likelihood(b[i], d)],
      noise |-> [d \in Doms |-> NoiseCharge(b[i], d)],
      pulses |-> Bag([j \in DOMAIN b[i].pulses |->
                        Pulse(b[i], b[i].pulses[j])])]])

----------------------------------------------------------------------------
\* valid batches: windows of a DOM do not overlap, excluded pulses are gone
Valid ==
  \A i \in DOMAIN batch :
    LET e == batch[i]
    IN /\ \A j, k \in DOMAIN e.windows :
            j # k /\ e.windows[j].d = e.windows[k].d =>
              e.windows[j].b <= e.windows[k].a \/
              e.windows[k].b <= e.windows[j].a
       /\ \A p \in Range(e.pulses) :
            /\ Rel(e, p.t) \notin Excluded(e, p.d)
            /\ Rel(e, p.t) \in InRead(e)
       /\ \A w \in Range(e.windows) : w.a < w.b

\* the uncovered share is additive: what is seen and what is not make it up
Complete ==
  \A i \in DOMAIN batch : \A d \in Doms :
    LET e == batch[i]
    IN RAdd(NoiseFree(e, d),
            R(Cardinality(InRead(e) \cap Excluded(e, d)),
              Cardinality(InRead(e)))) = RI(1)

----------------------------------------------------------------------------
Pick(S) == IF Simulated /\ S # {} THEN {RandomElement(S)} ELSE S
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
New(h, at) == [hyp |-> h, writing |-> 0, scale |-> 1, at |-> at,
               read |-> <<Low, High>>, pulses |-> <<>>, windows |-> <<>>]
Moved(e, by) ==
  [e EXCEPT !.at = @ + by,
            !.pulses = [j \in DOMAIN @ |-> [@[j] EXCEPT !.t = @ + by]],
            !.windows = [j \in DOMAIN @ |->
                           [@[j] EXCEPT !.a = @ + by, !.b = @ + by]]]
Some == Pick(DOMAIN batch)
\* (bound to the state, for values to be picked anew each time)
P(S) == Pick({x \in S : batch # <<>>})

Init == batch = <<New(1, 0)>>

AddEvent ==
  /\ Len(batch) < MaxEvents
  /\ \E h \in P(Hyps) : \E at \in P(Ats) :
       batch' = Append(batch, New(h, at))
\* an event with a pulse in every cell
Full(h, at, q) ==
  [New(h, at) EXCEPT
     !.pulses = [j \in 1..(NumDoms * (High - Low)) |->
                   [d |-> 1 + ((j - 1) % NumDoms),
                    t |-> Low + at + ((j - 1) \div NumDoms), q |-> q]]]
AddFull ==
  /\ Len(batch) < MaxEvents
  /\ \A i \in DOMAIN batch : Len(batch[i].pulses) <= MaxPulses
  /\ \E h \in P(Hyps) : \E at \in P(Ats) : \E q \in P(Qs) :
       batch' = Append(batch, Full(h, at, q))
\* another copy of an event, at another time, the same in every other way
CopyEvent ==
  /\ Len(batch) < MaxEvents
  /\ \E i \in Some : \E by \in P(Ats) :
       /\ batch[i].at + by \in Bounds
       /\ batch' = Append(batch, Moved(batch[i], by))
MoveEvent ==
  \E i \in Some : \E by \in P(Ats) :
    /\ batch[i].at + by \in Bounds
    /\ batch' = [batch EXCEPT ![i] = Moved(@, by)]
SwapEvents ==
  \E i \in Some : \E j \in Pick(DOMAIN batch \ {i}) :
    batch' = Swap(batch, i, j)
DropEvent ==
  /\ Len(batch) > 1
  /\ \E i \in Some :
       batch' = SubSeq(batch, 1, i - 1) \o SubSeq(batch, i + 1, Len(batch))
Rewrite ==
  \E i \in Some : \E w \in P(Writings) :
    batch' = [batch EXCEPT ![i].writing = w]
Rescale ==
  \E i \in Some : \E s \in P(Scales) :
    batch' = [batch EXCEPT ![i].scale = s]
Reread ==
  \E i \in Some : \E r \in P(Reads) :
    /\ \A p \in Range(batch[i].pulses) :
         r[1] <= Rel(batch[i], p.t) /\ Rel(batch[i], p.t) < r[2]
    /\ batch' = [batch EXCEPT ![i].read = r]
AddPulse ==
  \E i \in Some : \E d \in P(Doms) :
    LET e == batch[i]
        free == (InRead(e) \cap Cells) \ Excluded(e, d)
    IN /\ Len(e.pulses) < MaxPulses
       /\ \E c \in Pick(free) : \E q \in P(Qs) :
            batch' = [batch EXCEPT ![i].pulses =
                        Append(@, [d |-> d, t |-> c + e.at, q |-> q])]
SwapPulses ==
  \E i \in Some :
    \E j \in Pick(DOMAIN batch[i].pulses) :
      \E k \in Pick(DOMAIN batch[i].pulses \ {j}) :
        batch' = [batch EXCEPT ![i].pulses = Swap(@, j, k)]
\* windows may reach beyond the read-out
AddWindow ==
  \E i \in Some : \E d \in P(Doms) :
    LET e == batch[i]
        out == Excluded(e, d)
        ok(a, b) == \A c \in a..(b - 1) :
                      /\ c \notin out
                      /\ \A p \in Range(e.pulses) :
                           p.d = d => Rel(e, p.t) # c
        can == {w \in ((IF Simulated THEN Low - 5 ELSE Low)..(High - 1)) \X Lengths : ok(w[1], w[1] + w[2])}
    IN /\ Len(e.windows) < MaxWindows
       /\ \E w \in Pick(can) :
            batch' = [batch EXCEPT ![i].windows =
                        Append(@, [d |-> d, a |-> w[1] + e.at,
                                   b |-> w[1] + w[2] + e.at])]
\* one window or two that touch: the same
SplitWindow ==
  \E i \in Some :
    LET e == batch[i]
    IN \E j \in Pick({j \in DOMAIN e.windows :
                        e.windows[j].b - e.windows[j].a > 1}) :
         LET w == e.windows[j]
         IN \E m \in Pick((w.a + 1)..(w.b - 1)) :
              batch' = [batch EXCEPT ![i].windows =
                          Append([@ EXCEPT ![j].b = m],
                                 [d |-> w.d, a |-> m, b |-> w.b])]
SwapWindows ==
  \E i \in Some :
    \E j \in Pick(DOMAIN batch[i].windows) :
      \E k \in Pick(DOMAIN batch[i].windows \ {j}) :
        batch' = [batch EXCEPT ![i].windows = Swap(@, j, k)]
DropWindow ==
  \E i \in Some :
    /\ Len(batch[i].windows) > 0
    /\ batch' = [batch EXCEPT ![i].windows = Tail(@)]

Keeping == MoveEvent \/ SwapEvents \/ Rewrite \/ SwapPulses
           \/ SplitWindow \/ SwapWindows
Changing == AddEvent \/ AddFull \/ CopyEvent \/ DropEvent \/ Rescale \/ Reread
            \/ AddPulse \/ AddWindow \/ DropWindow
Next == Keeping \/ Changing
Spec == Init /\ [][Next]_vars
\* (not when simulating: the steps are drawn at random)
Kept == [][Keeping => Meaning(batch') = Meaning(batch)]_vars

----------------------------------------------------------------------------
Emit ==
  PrintT(ToJson(
    [batch |-> batch,
     doms |-> [i \in DOMAIN batch |-> [d \in Doms |->
        [excluded |-> Excluded(batch[i], d),
         measured |-> Measured(batch[i], d),
         noise |-> NoiseCharge(batch[i], d)]]],
     times |-> [i \in DOMAIN batch |-> [j \in DOMAIN batch[i].pulses |->
                  [t |-> Rel(batch[i], batch[i].pulses[j].t),
                   noise |-> NoisePdf(batch[i], batch[i].pulses[j].d)]]]]))
================================================================================
