------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, which can be long. A byte string is a sequence of pairs:  *)
(* <<0, b>> is the byte b, <<n, s>> with n > 0 is the block of the n bytes *)
(* h(s), h(s+1), ... of a fixed pseudo-random sequence h. Blocks can be    *)
(* cut and joined, so the layout of messages of any length is described    *)
(* without writing down their content.                                     *)
(* Numbers wider than 31 bits are sequences of 16-bit limbs, high first.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

B(b) == <<0, b>>
Bs(q) == [i \in 1..Len(q) |-> <<0, q[i]>>]

RECURSIVE RLen(_)
RLen(r) == IF r = <<>> THEN 0
           ELSE (IF Head(r)[1] = 0 THEN 1 ELSE Head(r)[1]) + RLen(Tail(r))

SegLen(x) == IF x[1] = 0 THEN 1 ELSE x[1]

RECURSIVE Take(_, _)
Take(r, n) ==
  IF n = 0 \/ r = <<>> THEN <<>>
  ELSE LET l == SegLen(Head(r)) IN
       IF l <= n THEN <<Head(r)>> \o Take(Tail(r), n - l)
       ELSE << <<n, Head(r)[2]>> >>

RECURSIVE Drop(_, _)
Drop(r, n) ==
  IF n = 0 \/ r = <<>> THEN r
  ELSE LET l == SegLen(Head(r)) IN
       IF l <= n THEN Drop(Tail(r), n - l)
       ELSE << <<l - n, Head(r)[2] + n>> >> \o Tail(r)

\* The i-th byte of a string, which must be written out.
At(r, i) == r[i][2]

U8(n)  == << <<0, n % 256>> >>
U16(n) == << <<0, (n \div 256) % 256>>, <<0, n % 256>> >>
U24(n) == << <<0, (n \div 65536) % 256>> >> \o U16(n % 65536)
\* Up to 2^31 - 1.
U32(n) == U16(n \div 65536) \o U16(n % 65536)

RECURSIVE Limbs(_)
Limbs(q) == IF q = <<>> THEN <<>> ELSE U16(Head(q)) \o Limbs(Tail(q))

\* Numbers in front of a string.
N8(r)  == At(r, 1)
N16(r) == At(r, 1) * 256 + At(r, 2)
N24(r) == At(r, 1) * 65536 + N16(Tail(r))
L32(r) == <<N16(r), N16(Drop(r, 2))>>
L64(r) == L32(r) \o L32(Drop(r, 4))

\* Equal content, whichever way it is cut. Only for short blocks' sakes:
\* literal bytes and whole blocks compare as they are.
RECURSIVE Merge(_)
Merge(r) ==
  IF Len(r) < 2 THEN r
  ELSE LET a == r[1]  b == r[2] IN
       IF a[1] > 0 /\ b[1] > 0 /\ b[2] = a[2] + a[1]
       THEN Merge(<< <<a[1] + b[1], a[2]>> >> \o Tail(Tail(r)))
       ELSE <<a>> \o Merge(Tail(r))
=============================================================================
