--------------------------- MODULE PipelineBounds ---------------------------
(***************************************************************************)
(* How many files may have been loaded after c batches were consumed (P03).*)
(* All files have k events. B: batch size, R: repetitions, A: additional   *)
(* files, F, Q: capacities of the file and of the batch queue, W: loaders. *)
(***************************************************************************)
EXTENDS Integers

\* files in a group: 1 + A, and more until sqrt(R - 1) * B events are there
GroupFiles(k, B, R, A) ==
  CHOOSE g \in 1..(2 + A + R * B) :
     /\ g >= 1 + A /\ g*g*k*k >= (R - 1)*B*B
     /\ \A h \in 1..(g - 1) : h < 1 + A \/ h*h*k*k < (R - 1)*B*B

\* groups in use until batch number m is complete
Groups(m, k, B, R, A) ==
  LET g == GroupFiles(k, B, R, A) * k * R IN (m * B + g - 1) \div g

\* c consumed, Q waiting, one in the batcher's hands; F files waiting and
\* one in the hands of each loader
LoadBound(c, k, B, R, A, F, Q, W) ==
  GroupFiles(k, B, R, A) * Groups(c + Q + 1, k, B, R, A) + F + W
=============================================================================
