-------------------------------- MODULE Port --------------------------------
(***************************************************************************)
(* Port envelopes: a byte of marks (1: next, 2: complete), the length of   *)
(* the name in two bytes, the name, and everything else is data.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Marks(next, complete) == (IF next THEN 1 ELSE 0) + (IF complete THEN 2 ELSE 0)
Front(n, next, complete) == << Marks(next, complete), n \div 256, n % 256 >>
Encode(p) == Front(Len(p.port), p.next, p.complete) \o p.port \o p.data

Invalid == [ok |-> FALSE, port |-> <<>>, data |-> <<>>, next |-> FALSE, complete |-> FALSE]
Decode(b) ==
  IF Len(b) < 3 THEN Invalid
  ELSE LET n == b[2] * 256 + b[3] IN
       IF Len(b) < 3 + n THEN Invalid
       ELSE [ok |-> TRUE, port |-> SubSeq(b, 4, 3 + n), data |-> SubSeq(b, 4 + n, Len(b)),
             next |-> b[1] % 2 = 1, complete |-> (b[1] \div 2) % 2 = 1]

\* [op |-> "encode", port, data, next, complete], [op |-> "decode", bytes], or an envelope with a long name
\* and much data: [op |-> "large", pn, next, complete].
Want(r) ==
  CASE r.op = "encode" -> [bytes |-> Encode(r), dec |-> Decode(Encode(r))]
    [] r.op = "decode" -> [bytes |-> <<>>, dec |-> Decode(r.bytes)]
    [] r.op = "large"  -> [bytes |-> Front(r.pn, r.next, r.complete), dec |-> Invalid]
SameAgain(r) ==
  r.op = "encode" => Decode(Encode(r)) = [ok |-> TRUE, port |-> r.port, data |-> r.data, next |-> r.next, complete |-> r.complete]
\* No proper part of a name's envelope is an envelope of it, and what is read depends on the whole name.
CutShort(r) ==
  r.op = "encode" => \A n \in 0..(2 + Len(r.port)) : ~Decode(SubSeq(Encode(r), 1, n)).ok
=============================================================================
