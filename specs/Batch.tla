------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Frames on their way through a shared buffer of Room bytes.              *)
(*                                                                         *)
(* A run has, for every frame somebody sent, [p, size, from, to, res]: the *)
(* sender, the size of the frame, the moments the call began and returned, *)
(* and what it returned ("ok", "large", "closed", or "" when the sender is *)
(* not told); the batches that arrived in order, each [size, fs], fs being *)
(* indices of frames; the moments of the call that closed the connection   *)
(* (0, 0: none) and the moment from which the other side can have crashed  *)
(* (0: it did not). Every frame in a batch is preceded by 3 bytes.         *)
(*                                                                         *)
(* back is the other direction: the sizes of the frames in each batch that  *)
(* was handed over, the bytes of each batch, and the numbers of the frames *)
(* that were processed.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs).fs \o Flat(Tail(bs))

Fits(room, s) == s.size + 3 <= room
RECURSIVE Sum(_, _)
Sum(sends, fs) == IF fs = <<>> THEN 0 ELSE sends[Head(fs)].size + 3 + Sum(sends, Tail(fs))
Packed(r) == \A k \in 1..Len(r.batches) :
               r.batches[k].size <= r.room /\ Sum(r.sends, r.batches[k].fs) <= r.batches[k].size

Range(q) == {q[k] : k \in DOMAIN q}
NoTwice(q) == Cardinality(Range(q)) = Len(q)

Taken(r, s) == s.res = "ok" \/ (s.res = "" /\ Fits(r.room, s))
\* A crash loses what had not arrived; nothing else does.
Complete(r) == LET F == Flat(r.batches) IN
               /\ NoTwice(F)
               /\ \A k \in Range(F) : Taken(r, r.sends[k])
               /\ r.trap = 0 => \A k \in 1..Len(r.sends) : Taken(r, r.sends[k]) => k \in Range(F)

\* One call after the other is also one frame after the other.
InOrder(r) == LET F == Flat(r.batches) IN
              \A a, b \in DOMAIN F : a < b => ~(r.sends[F[b]].to < r.sends[F[a]].from)

Began(r, t) == (r.close.from > 0 /\ r.close.from < t) \/ (r.trap > 0 /\ r.trap < t)
Answered(r, s) ==
  CASE s.res = "ok" -> Fits(r.room, s) /\ (r.close.to > 0 => s.from < r.close.to)
    [] s.res = "large" -> ~Fits(r.room, s)
    [] s.res = "closed" -> Began(r, s.to)
    [] OTHER -> TRUE
Answers(r) == \A k \in 1..Len(r.sends) : Answered(r, r.sends[k])

---------------------------------------------------------------------------
(* What is in the bytes the other side hands over: frames announced with   *)
(* their sizes, and how many bytes there are. Whole frames are processed,  *)
(* each once; nothing is made of what is cut off.                          *)
RECURSIVE Whole(_, _)
Whole(sizes, bytes) == IF sizes = <<>> THEN 0
                       ELSE IF bytes < 3 + Head(sizes) THEN 0
                       ELSE 1 + Whole(Tail(sizes), bytes - 3 - Head(sizes))
RECURSIVE Handed(_, _, _)
Handed(sizes, bytes, before) ==
  IF sizes = <<>> THEN {}
  ELSE (before + 1 .. before + Whole(Head(sizes), Head(bytes))) \cup Handed(Tail(sizes), Tail(bytes), before + Len(Head(sizes)))

Back(r) == LET H == Handed(r.back.sizes, r.back.bytes, 0)
           IN /\ NoTwice(r.back.got)
              /\ Range(r.back.got) \subseteq H
              /\ (r.close.from = 0 /\ r.trap = 0) => Range(r.back.got) = H

RunOk(r) == Packed(r) /\ Complete(r) /\ InOrder(r) /\ Answers(r) /\ Back(r)
=============================================================================
