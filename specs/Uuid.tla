-------------------------------- MODULE Uuid --------------------------------
(***************************************************************************)
(* RFC 4122 identifiers as 16 bytes, their text (character codes), their   *)
(* fields, the drawing of random ones and the drawing of timestamps.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

---------------------------------------------------------------------------
(* Text *)
Digit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> THEN <<>> ELSE <<Digit(b[1] \div 16), Digit(b[1] % 16)>> \o Hex(Tail(b))

Dash == <<45>>
Print(u) == Hex(SubSeq(u, 1, 4)) \o Dash \o Hex(SubSeq(u, 5, 6)) \o Dash \o Hex(SubSeq(u, 7, 8)) \o Dash
            \o Hex(SubSeq(u, 9, 10)) \o Dash \o Hex(SubSeq(u, 11, 16))
UrnHead == <<117, 114, 110, 58, 117, 117, 105, 100, 58>>
Urn(u) == UrnHead \o Print(u)

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
IsHex(c) == (c >= 48 /\ c <= 57) \/ (Lower(c) >= 97 /\ Lower(c) <= 102)
Nibble(c) == IF c <= 57 THEN c - 48 ELSE Lower(c) - 87

No(len) == [ok |-> FALSE, length |-> len, bytes |-> <<>>]
Plain(h) == IF \A i \in 1..32 : IsHex(h[i])
            THEN [ok |-> TRUE, length |-> FALSE, bytes |-> [i \in 1..16 |-> 16 * Nibble(h[2 * i - 1]) + Nibble(h[2 * i])]]
            ELSE No(FALSE)
Dashed(s) == IF \A i \in {9, 14, 19, 24} : s[i] = 45
             THEN Plain(SubSeq(s, 1, 8) \o SubSeq(s, 10, 13) \o SubSeq(s, 15, 18) \o SubSeq(s, 20, 23) \o SubSeq(s, 25, 36))
             ELSE No(FALSE)

\* length: refused because of its length.
Parse(s) ==
  CASE Len(s) = 32 -> Plain(s)
    [] Len(s) = 36 -> Dashed(s)
    [] Len(s) = 38 -> Dashed(SubSeq(s, 2, 37))
    [] Len(s) = 45 -> IF [i \in 1..9 |-> Lower(s[i])] = UrnHead THEN Dashed(SubSeq(s, 10, 45)) ELSE No(FALSE)
    [] OTHER -> No(TRUE)

---------------------------------------------------------------------------
(* Fields *)
Fields(u) == [version |-> u[7] \div 16,
              variant |-> IF u[9] < 128 THEN "Reserved" ELSE IF u[9] < 192 THEN "RFC4122" ELSE IF u[9] < 224 THEN "Microsoft" ELSE "Future",
              time    |-> <<u[7] % 16, u[8], u[5], u[6], u[1], u[2], u[3], u[4]>>,
              seq     |-> (u[9] % 64) * 256 + u[10]]

\* Numbers as bytes, least significant first.
RECURSIVE Norm(_, _)
Norm(x, carry) == IF x = <<>> THEN IF carry = 0 THEN <<>> ELSE <<carry % 256>> \o Norm(<<>>, carry \div 256)
                  ELSE <<(x[1] + carry) % 256>> \o Norm(Tail(x), (x[1] + carry) \div 256)
At(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Longer(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
Add(x, y) == Norm([i \in 1..Longer(x, y) |-> At(x, i) + At(y, i)], 0)
Times(x, n) == Norm([i \in 1..Len(x) |-> x[i] * n], 0)
Same(x, y) == \A i \in 1..Longer(x, y) : At(x, i) = At(y, i)
RECURSIVE Rev(_)
Rev(x) == IF x = <<>> THEN <<>> ELSE Rev(Tail(x)) \o <<x[1]>>

\* 100 ns units from 1582-10-15 to 1970-01-01: 0x01B21DD213814000.
Gregorian == <<0, 64, 129, 19, 210, 29, 178, 1>>
Ticks(sec, units) == Add(Times(Times(sec, 10000), 1000), units)
\* A time (most significant byte first) is sec seconds and units of 100 ns from 1970, either of them possibly negative.
IsUnix(time, neg, sec, uneg, units) ==
  LET a == Times(Times(sec, 10000), 1000)
      l == Add(Add(Rev(time), IF neg THEN a ELSE <<>>), IF uneg THEN units ELSE <<>>)
      r == Add(Add(Gregorian, IF neg THEN <<>> ELSE a), IF uneg THEN <<>> ELSE units)
  IN Same(l, r)

---------------------------------------------------------------------------
(* What the specification says of a case. *)
Want(r) ==
  CASE r.op = "print" -> [print |-> Print(r.bytes), urn |-> Urn(r.bytes), fields |-> Fields(r.bytes), parse |-> No(TRUE)]
    [] r.op = "binary" -> [print |-> <<>>, urn |-> <<>>, fields |-> [version |-> 0, variant |-> "", time |-> <<>>, seq |-> 0],
                           parse |-> IF Len(r.text) = 16 THEN [ok |-> TRUE, length |-> FALSE, bytes |-> r.text] ELSE No(FALSE)]
    [] r.op = "parse" -> [print |-> <<>>, urn |-> <<>>, fields |-> [version |-> 0, variant |-> "", time |-> <<>>, seq |-> 0], parse |-> Parse(r.text)]

Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
NoDash(s) == SelectSeq(s, LAMBDA c : c # 45)
AllForms(r) ==
  r.op = "print" =>
    LET p == Print(r.bytes)
        is(s) == Parse(s) = [ok |-> TRUE, length |-> FALSE, bytes |-> r.bytes]
    IN /\ is(p) /\ is(Upper(p)) /\ is(Urn(r.bytes)) /\ is(Upper(Urn(r.bytes)))
       /\ is(<<123>> \o p \o <<125>>) /\ is(NoDash(p)) /\ is(Upper(NoDash(p)))
Canonical(r) ==
  r.op = "parse" => LET p == Parse(r.text) IN p.ok => Parse(Print(p.bytes)).bytes = p.bytes /\ Len(Print(p.bytes)) = 36

---------------------------------------------------------------------------
(* Recorded runs. *)

\* Drawing random identifiers: at is where in the source's bytes the 16 of one were (122 bits of them), -1 if they were nowhere.
\* An error is only right when the source failed.
Draws(r) ==
  LET n == Len(r.ev)
      good == {i \in 1..n : r.ev[i].ok}
      used == UNION {r.ev[i].at .. (r.ev[i].at + 15) : i \in good}
  IN /\ \A i \in good : r.ev[i].version = 4 /\ r.ev[i].variant = "RFC4122" /\ r.ev[i].at >= 0
     /\ Cardinality(used) = 16 * Cardinality(good)
     /\ \A i \in 1..n : ~r.ev[i].ok => r.ev[i].failed

\* Drawing timestamps. now: the clock, as seconds and units since 1970; a time is what GetTime gave.
\* "set": the sequence is given; "seq": it is read.
RECURSIVE Clock(_, _, _)
Clock(ev, i, s) ==
  IF i > Len(ev) THEN TRUE
  ELSE LET e == ev[i] IN
    CASE e.op = "get" ->
           /\ IsUnix(e.time, FALSE, e.sec, FALSE, e.units)
           /\ <<e.time, e.seq>> \notin s.pairs
           /\ e.seq \in 0..16383
           /\ Clock(ev, i + 1, [pairs |-> s.pairs \cup {<<e.time, e.seq>>}, seq |-> e.seq, known |-> TRUE])
      [] e.op = "seq" -> e.seq \in 0..16383 /\ (s.known => e.seq = s.seq) /\ Clock(ev, i + 1, [s EXCEPT !.seq = e.seq, !.known = TRUE])
      \* A sequence that is set anew starts over; the one that is set already does not.
      [] e.op = "set" -> Clock(ev, i + 1, IF s.known /\ e.seq % 16384 = s.seq THEN s ELSE [pairs |-> {}, seq |-> e.seq % 16384, known |-> TRUE])
      [] e.op = "reset" -> Clock(ev, i + 1, [pairs |-> {}, seq |-> 0, known |-> FALSE])

\* Many draws at one time, or by many goroutines: time and sequence are numbers of their own here.
Distinct(r) == Cardinality({<<r.ev[i].tick, r.ev[i].seq>> : i \in 1..Len(r.ev)}) = Len(r.ev)

Recorded(r) ==
  CASE r.kind = "draw"  -> Draws(r)
    [] r.kind = "clock" -> Clock(r.ev, 1, [pairs |-> {}, seq |-> 0, known |-> FALSE])
    [] r.kind = "many"  -> Distinct(r)
    [] r.kind = "unix"  -> IsUnix(r.time, r.neg, r.sec, r.uneg, r.units)
=============================================================================
