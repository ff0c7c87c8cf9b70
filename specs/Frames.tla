------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* The layout of frames, what decoding gives for any bytes, fragments, and *)
(* the frames in a byte stream. Frames are records                         *)
(*   type, id (two limbs), next, comp, foll, n (two limbs), md, data       *)
(* whose fields without a place in the layout of their type are fixed:     *)
(* n is <<0, 0>>, flags are FALSE and md is empty.                         *)
(***************************************************************************)
EXTENDS Bytes, TLC

RR == 4  FNF == 5  RS == 6  RC == 7  REQN == 8  CANCEL == 9  PAYLOAD == 10  ERROR == 11
Requests == {RR, FNF, RS, RC}
Types == Requests \cup {REQN, CANCEL, PAYLOAD, ERROR}
WithN == {RS, RC, REQN, ERROR}
WithMd == Requests \cup {PAYLOAD}

FNext == 32  FComp == 64  FFoll == 128  FMeta == 256  FIgn == 512
Bit(n, f) == (n \div f) % 2 = 1
If(c, x) == IF c THEN x ELSE 0

Zero == <<0, 0>>
Frame(t, id) == [type |-> t, id |-> id, next |-> FALSE, comp |-> FALSE, foll |-> FALSE,
                 n |-> Zero, md |-> <<>>, data |-> <<>>]

Flags(f) ==
  IF f.type \in WithMd
  THEN If(f.foll, FFoll) + If(f.md # <<>>, FMeta)
       + If(f.comp /\ f.type \in {RC, PAYLOAD}, FComp) + If(f.next /\ f.type = PAYLOAD, FNext)
  ELSE 0

Header(id, type, flags) == Limbs(id) \o U16(type * 1024 + flags)

Encode(f) ==
  Header(f.id, f.type, Flags(f))
  \o (IF f.type \in WithN THEN Limbs(f.n) ELSE <<>>)
  \o (IF f.type \in WithMd /\ f.md # <<>> THEN U24(RLen(f.md)) \o f.md ELSE <<>>)
  \o (IF f.type \in WithMd \cup {ERROR} THEN f.data ELSE <<>>)

HeaderSize(t) == 6 + (IF t \in WithN THEN 4 ELSE 0)

Size(f) == HeaderSize(f.type)
           + (IF f.type \in WithMd THEN (IF f.md # <<>> THEN 3 + RLen(f.md) ELSE 0) + RLen(f.data) ELSE 0)
           + (IF f.type = ERROR THEN RLen(f.data) ELSE 0)

\* What the header of at least 6 written-out bytes says.
Mask(id) == <<id[1] % 32768, id[2]>>
HId(r) == Mask(L32(r))
HType(r) == N16(Drop(r, 4)) \div 1024
HFlags(r) == N16(Drop(r, 4)) % 1024

Bad == [err |-> TRUE]

\* What decoding gives: a frame, or Bad.
Decode(r) ==
  IF RLen(r) < 6 THEN Bad
  ELSE LET t == HType(r)
           fl == HFlags(r)
           p == Drop(r, 6)
           nn == t \in WithN
           q == IF nn THEN Drop(p, 4) ELSE p
           mm == t \in WithMd /\ Bit(fl, FMeta)
           short == (nn /\ RLen(p) < 4)
           ml == N24(q)
           base == [Frame(t, HId(r)) EXCEPT
                      !.next = t = PAYLOAD /\ Bit(fl, FNext),
                      !.comp = t \in {RC, PAYLOAD} /\ Bit(fl, FComp),
                      !.foll = t \in WithMd /\ Bit(fl, FFoll)]
       IN IF t \notin Types \/ short THEN Bad
          ELSE LET f == IF nn THEN [base EXCEPT !.n = L32(p)] ELSE base IN
               IF t \in {REQN, CANCEL} THEN f
               ELSE IF ~mm THEN [f EXCEPT !.data = q]
               ELSE IF RLen(q) < 3 \/ ml > RLen(q) - 3 THEN Bad
               ELSE [f EXCEPT !.md = Take(Drop(q, 3), ml), !.data = Drop(q, 3 + ml)]

\* As it can be told apart on the wire.
Norm(f) == [f EXCEPT !.md = Merge(@), !.data = Merge(@)]
RoundTrip(f) == Norm(Decode(Encode(f))) = Norm(f)
SizeTold(f) == RLen(Encode(f)) = Size(f)

TypeName(t) ==
  CASE t = 0 -> "RESERVED" [] t = 1 -> "SETUP" [] t = 2 -> "LEASE" [] t = 3 -> "KEEPALIVE"
    [] t = 4 -> "REQUEST_RESPONSE" [] t = 5 -> "REQUEST_FNF" [] t = 6 -> "REQUEST_STREAM"
    [] t = 7 -> "REQUEST_CHANNEL" [] t = 8 -> "REQUEST_N" [] t = 9 -> "CANCEL" [] t = 10 -> "PAYLOAD"
    [] t = 11 -> "ERROR" [] t = 12 -> "METADATA_PUSH" [] t = 13 -> "RESUME" [] t = 14 -> "RESUME_OK"
    [] t = 63 -> "EXT" [] OTHER -> "UNKNOWN"

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "|" \o Join(Tail(q))
FlagNames(fl) == Join((IF Bit(fl, FNext) THEN <<"N">> ELSE <<>>) \o (IF Bit(fl, FComp) THEN <<"CL">> ELSE <<>>)
                      \o (IF Bit(fl, FFoll) THEN <<"FRS">> ELSE <<>>) \o (IF Bit(fl, FMeta) THEN <<"M">> ELSE <<>>)
                      \o (IF Bit(fl, FIgn) THEN <<"I">> ELSE <<>>))

\* The frames in a stream of length-prefixed frames, as raw bytes; `end' tells
\* whether the stream ends cleanly for the receiver (possibly inside a frame).
RECURSIVE Deframe(_)
Deframe(r) ==
  IF RLen(r) < 3 THEN [raw |-> <<>>, end |-> "eof"]
  ELSE LET n == N24(r) IN
       IF n = 0 THEN [raw |-> <<>>, end |-> "error"]
       ELSE IF RLen(r) - 3 < n THEN [raw |-> <<>>, end |-> "eof"]
       ELSE IF n < 6 THEN [raw |-> <<>>, end |-> "error"]
       ELSE LET rest == Deframe(Drop(r, 3 + n)) IN
            [raw |-> <<Take(Drop(r, 3), n)>> \o rest.raw, end |-> rest.end]

\* The frames a connection delivers: up to the first that cannot be decoded.
RECURSIVE UpToBad(_)
UpToBad(raw) ==
  IF raw = <<>> THEN [frames |-> <<>>, bad |-> FALSE]
  ELSE LET f == Decode(Head(raw)) IN
       IF "err" \in DOMAIN f THEN [frames |-> <<>>, bad |-> TRUE]
       ELSE LET rest == UpToBad(Tail(raw)) IN [frames |-> <<f>> \o rest.frames, bad |-> rest.bad]
Receive(r) ==
  LET d == Deframe(r)  u == UpToBad(d.raw) IN
  [frames |-> u.frames, end |-> IF u.bad THEN "error" ELSE d.end]

\* A frame's bytes with their length in front; nothing if it is too long.
MaxLength == 16777215
Framed(f) == U24(Size(f)) \o Encode(f)
RECURSIVE Sent(_)
Sent(fs) == IF fs = <<>> THEN <<>>
            ELSE (IF Size(Head(fs)) > MaxLength THEN <<>> ELSE Framed(Head(fs))) \o Sent(Tail(fs))

----------------------------------------------------------------------------
(* Fragments fs of the frame f for the limit max: what any splitting must give. *)
RECURSIVE Cat(_, _)
Cat(fs, field) == IF fs = <<>> THEN <<>>
                  ELSE (IF field = "md" THEN Head(fs).md ELSE Head(fs).data) \o Cat(Tail(fs), field)

FragmentsOk(f, max, fs) ==
  IF Size(f) <= max THEN fs = <<>>
  ELSE /\ Len(fs) >= 1
       /\ \A i \in 1..Len(fs) : Size(fs[i]) <= max
       /\ \A i \in 1..Len(fs) : fs[i].id = f.id
       /\ fs[1].type = f.type /\ fs[1].n = f.n
       /\ \A i \in 2..Len(fs) : fs[i].type = PAYLOAD
       /\ \A i \in 1..Len(fs) : fs[i].foll = (i < Len(fs))
       /\ \A i \in 1..Len(fs) - 1 : ~fs[i].comp
       /\ f.type \in {RC, PAYLOAD} => fs[Len(fs)].comp = f.comp
       /\ f.type = PAYLOAD => fs[Len(fs)].next = f.next
       /\ Merge(Cat(fs, "md")) = Merge(f.md)
       /\ Merge(Cat(fs, "data")) = Merge(f.data)

\* One way to split that satisfies this for every limit that leaves room for a
\* byte: the specification itself is not contradictory.
RECURSIVE Split(_, _, _, _)
Split(f, max, md, data) ==
  LET room == max - HeaderSize(f.type) - (IF md # <<>> THEN 3 ELSE 0)
      m == IF RLen(md) <= room THEN RLen(md) ELSE room
      d == IF RLen(data) <= room - m THEN RLen(data) ELSE room - m
      g == [f EXCEPT !.md = Take(md, m), !.data = Take(data, d)]
      md2 == Drop(md, m)  data2 == Drop(data, d)
  IN IF md2 = <<>> /\ data2 = <<>> THEN <<g>>
     ELSE <<[g EXCEPT !.foll = TRUE, !.comp = FALSE, !.next = FALSE]>>
          \o Split([f EXCEPT !.type = PAYLOAD, !.n = Zero], max, md2, data2)
SomeSplit(f, max) == IF Size(f) <= max THEN <<>> ELSE Split(f, max, f.md, f.data)

----------------------------------------------------------------------------
(* What the real code has to show for the inputs of the replays *)

FrameWant(r) == [size |-> Size(r.f), bytes |-> Encode(r.f)]
FrameThm(r) == "f" \in DOMAIN r => RoundTrip(r.f) /\ SizeTold(r.f)

HeaderWant(r) ==
  LET names == [t |-> TypeName(r.type), f |-> FlagNames(r.flags)] IN
  [bytes |-> Header(r.sid, r.type, r.flags), type |-> r.type, flags |-> r.flags,
   typeName |-> names.t, flagNames |-> names.f,
   resumable |-> r.type \in Types,
   checks |-> [k \in {"next", "comp", "foll", "meta", "ign"} |->
     Bit(r.flags, CASE k = "next" -> FNext [] k = "comp" -> FComp [] k = "foll" -> FFoll
                    [] k = "meta" -> FMeta [] k = "ign" -> FIgn)]]

U24Want(r) == IF r.v > MaxLength THEN [ok |-> FALSE, bytes |-> <<>>]
              ELSE [ok |-> TRUE, bytes |-> U24(r.v)]

StreamOf(r) == LET all == Sent(r.fs) IN Take(all, RLen(all) - r.drop)
StreamWant(r) == LET d == Deframe(StreamOf(r)) IN [stream |-> StreamOf(r), raw |-> d.raw]
\* Deframing what was sent gives all frames; cut short, all that came whole.
StreamThm(r) == LET d == Deframe(StreamOf(r)) IN
                /\ r.drop = 0 => Len(d.raw) = Len(r.fs)
                /\ \A k \in 1..Len(d.raw) : Merge(d.raw[k]) = Merge(Encode(r.fs[k]))
                /\ d.end = "eof"

WriteWant(r) == [bytes |-> Sent(r.fs), oks |-> [k \in 1..Len(r.fs) |-> Size(r.fs[k]) <= MaxLength]]

BytesWant(r) == LET f == Decode(r.bs) IN
                IF "err" \in DOMAIN f THEN [ok |-> FALSE] ELSE [ok |-> TRUE, f |-> f]
JunkWant(r) == Receive(r.bs)

FragmentCase(r) == FragmentsOk(r.f, r.max, r.fs)
SplitThm(r) == FragmentsOk(r.f, r.max, SomeSplit(r.f, r.max))
=============================================================================
