------------------------------ MODULE Deframe ------------------------------
(***************************************************************************)
(* A receiver of length-prefixed frames, with one byte of length. The      *)
(* network hands over any number of bytes at a time, the last of them      *)
(* possibly together with the end of the stream.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANT Stream
VARIABLES read,    \* how many bytes the network has handed over
          done,    \* how many of them have been delivered as frames
          got,     \* the frames delivered
          eof      \* no, seen (by the reader), told (to the user)
vars == <<read, done, got, eof>>

Init == read = 0 /\ done = 0 /\ got = <<>> /\ eof = "no"

Read(k) == /\ eof = "no" /\ k \in 1..(Len(Stream) - read)
           /\ read' = read + k
           /\ eof' \in IF read' = Len(Stream) THEN {"no", "seen"} ELSE {"no"}
           /\ UNCHANGED <<done, got>>
End == /\ eof = "no" /\ read = Len(Stream) /\ eof' = "seen" /\ UNCHANGED <<read, done, got>>

Whole(d, r) == d < r /\ d + 1 + Stream[d + 1] <= r
Deliver == /\ Whole(done, read)
           /\ got' = Append(got, SubSeq(Stream, done + 2, done + 1 + Stream[done + 1]))
           /\ done' = done + 1 + Stream[done + 1]
           /\ UNCHANGED <<read, eof>>
\* The end is told only when no whole frame is left.
Tell == eof = "seen" /\ ~Whole(done, read) /\ eof' = "told" /\ UNCHANGED <<read, done, got>>

Next == (\E k \in 1..Len(Stream) : Read(k)) \/ End \/ Deliver \/ Tell
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Parse(_)
Parse(q) == IF q = <<>> \/ 1 + q[1] > Len(q) THEN <<>>
            ELSE <<SubSeq(q, 2, 1 + q[1])>> \o Parse(SubSeq(q, 2 + q[1], Len(q)))

Prefix == \E n \in 0..Len(Parse(Stream)) : got = SubSeq(Parse(Stream), 1, n)
Complete == eof = "told" => got = Parse(Stream)
Bounded == done <= read /\ read <= Len(Stream)
AllDelivered == <>(eof = "told")
=============================================================================
