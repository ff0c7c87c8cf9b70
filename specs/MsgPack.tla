------------------------------ MODULE MsgPack ------------------------------
(***************************************************************************)
(* What is written for a value, and what reading some bytes gives.         *)
(*                                                                         *)
(* Numbers are byte sequences, big-endian and in two's complement, since   *)
(* they go up to 64 bits. Written strings are ropes (see Bytes), read      *)
(* input is a sequence of bytes.                                           *)
(***************************************************************************)
EXTENDS Bytes, TLC

---------------------------------------------------------------------------
(* Writing. Pieces of output are ropes [b |-> rope] or the entries of a    *)
(* map in any order, [m |-> << <<key, value>>, ... >>], both being pieces. *)

Lit(q) == << [b |-> Bs(q)] >>
All(b, i, j, x) == \A k \in i..j : b[k] = x
Sub(b, i, j) == [k \in 1..(j - i + 1) |-> b[i + k - 1]]

\* The shortest of the signed forms.
EncInt(b) ==
  LET neg  == b[1] >= 128
      fill == IF neg THEN 255 ELSE 0
      fits(k) == All(b, 1, k - 1, fill) /\ ((b[k] >= 128) = neg)
  IN CASE ~neg /\ All(b, 1, 7, 0) /\ b[8] < 128 -> <<b[8]>>
       [] neg /\ All(b, 1, 7, 255) /\ b[8] >= 224 -> <<b[8]>>
       [] OTHER -> IF fits(8) THEN <<208>> \o Sub(b, 8, 8)
                   ELSE IF fits(7) THEN <<209>> \o Sub(b, 7, 8)
                   ELSE IF fits(5) THEN <<210>> \o Sub(b, 5, 8)
                   ELSE <<211>> \o b

\* The shortest of the unsigned forms.
EncUint(b) ==
  IF All(b, 1, 7, 0) /\ b[8] < 128 THEN <<b[8]>>
  ELSE IF All(b, 1, 7, 0) THEN <<204>> \o Sub(b, 8, 8)
  ELSE IF All(b, 1, 6, 0) THEN <<205>> \o Sub(b, 7, 8)
  ELSE IF All(b, 1, 4, 0) THEN <<206>> \o Sub(b, 5, 8)
  ELSE <<207>> \o b

\* Lengths of strings and byte arrays.
StrHead(n) ==
  IF n < 32 THEN U8(160 + n)
  ELSE IF n < 256 THEN U8(217) \o U8(n)
  ELSE IF n < 65536 THEN U8(218) \o U16(n)
  ELSE U8(219) \o U32(n)
BinHead(n) ==
  IF n < 256 THEN U8(196) \o U8(n)
  ELSE IF n < 65536 THEN U8(197) \o U16(n)
  ELSE U8(198) \o U32(n)
\* Numbers of elements and entries, of four bytes.
SizeHead(b, fix, c16, c32) ==
  IF All(b, 1, 3, 0) /\ b[4] < 16 THEN <<fix + b[4]>>
  ELSE IF All(b, 1, 2, 0) THEN <<c16>> \o Sub(b, 3, 4)
  ELSE <<c32>> \o b
ArrHead(b) == SizeHead(b, 144, 220, 221)
MapHead(b) == SizeHead(b, 128, 222, 223)
Four(n) == [k \in 1..4 |-> U32(n)[k][2]]

\* Seconds of eight bytes, nanoseconds below 10^9.
EncTime(s, n) ==
  IF All(s, 1, 3, 0) /\ s[4] < 4
  THEN IF n = 0 /\ s[4] = 0 THEN <<214, 255>> \o Sub(s, 5, 8)
       ELSE LET hi == n \div 16384
                lo == (n % 16384) * 4 + s[4]
            IN <<215, 255, hi \div 256, hi % 256, lo \div 256, lo % 256>> \o Sub(s, 5, 8)
  ELSE <<199, 12, 255>> \o Four(n) \o s

Ints  == {"int", "int8", "int16", "int32", "int64"}
Uints == {"uint", "uint8", "uint16", "uint32", "uint64"}

\* A value of a scalar type.
Scalar(t, v) ==
  CASE t = "nil" -> Lit(<<192>>)
    [] t = "bool" -> Lit(<<IF v THEN 195 ELSE 194>>)
    [] t \in Ints -> Lit(EncInt(v))
    [] t \in Uints -> Lit(EncUint(v))
    [] t = "float32" -> Lit(<<202>> \o v)
    [] t = "float64" -> Lit(<<203>> \o v)
    [] t = "string" -> << [b |-> StrHead(RLen(v)) \o v] >>
    [] t = "bytes" -> << [b |-> BinHead(RLen(v)) \o v] >>
    [] t = "time" -> Lit(EncTime(v.s, v.n))
    [] t = "array" -> Lit(ArrHead(v))
    [] t = "map" -> Lit(MapHead(v))

\* Dynamically typed values: scalars; "slice" of type e; "anys"; "dict" with
\* keys of type e and dynamically typed values; "strs" (string to string);
\* "anydict" (dynamically typed to dynamically typed); "codec" (a sequence of
\* operations); "bad" (a type nobody knows), "failing" (a codec that fails).
RECURSIVE AnyPieces(_), OpPieces(_), Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

AnyPieces(x) ==
  LET n == Len(x.v) IN
  CASE x.t = "slice" -> Lit(ArrHead(Four(n))) \o Cat([i \in 1..n |-> Scalar(x.e, x.v[i])])
    [] x.t = "anys"  -> Lit(ArrHead(Four(n))) \o Cat([i \in 1..n |-> AnyPieces(x.v[i])])
    [] x.t = "dict"  -> Lit(MapHead(Four(n))) \o
         << [m |-> [i \in 1..n |-> <<Scalar(x.e, x.v[i][1]), AnyPieces(x.v[i][2])>>]] >>
    [] x.t = "strs"  -> Lit(MapHead(Four(n))) \o
         << [m |-> [i \in 1..n |-> <<Scalar("string", x.v[i][1]), Scalar("string", x.v[i][2])>>]] >>
    [] x.t = "anydict" -> Lit(MapHead(Four(n))) \o
         << [m |-> [i \in 1..n |-> <<AnyPieces(x.v[i][1]), AnyPieces(x.v[i][2])>>]] >>
    [] x.t = "codec" -> Cat([i \in 1..n |-> OpPieces(x.v[i])])
    [] x.t \in {"bad", "failing"} -> <<>>
    [] OTHER -> Scalar(x.t, x.v)

\* An operation of the writer: o is the type, null is "nil" (an absent
\* optional value), "some" (a present one) or "no".
OpPieces(x) ==
  IF x.null = "nil" THEN Lit(<<192>>)
  ELSE IF x.o = "any" THEN AnyPieces(x.v)
  ELSE Scalar(x.o, x.v)

RECURSIVE AnyBad(_)
AnyBad(x) ==
  CASE x.t \in {"bad", "failing"} -> TRUE
    [] x.t = "anys" -> \E i \in 1..Len(x.v) : AnyBad(x.v[i])
    [] x.t \in {"dict", "anydict"} -> \E i \in 1..Len(x.v) :
         AnyBad(x.v[i][2]) \/ (x.t = "anydict" /\ AnyBad(x.v[i][1]))
    [] x.t = "codec" -> \E i \in 1..Len(x.v) : x.v[i].o = "any" /\ AnyBad(x.v[i].v)
    [] OTHER -> FALSE
OpBad(x) == x.o = "any" /\ AnyBad(x.v)

RECURSIVE PLen(_)
PLen(ps) ==
  IF ps = <<>> THEN 0
  ELSE (IF "b" \in DOMAIN Head(ps) THEN RLen(Head(ps).b)
        ELSE PLen(Cat([i \in 1..Len(Head(ps).m) |-> Cat(Head(ps).m[i])]))) + PLen(Tail(ps))

\* The bytes, entries being in the order given.
RECURSIVE Flat(_)
Flat(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE (IF "b" \in DOMAIN Head(ps) THEN Head(ps).b
        ELSE Flat(Cat([i \in 1..Len(Head(ps).m) |-> Cat(Head(ps).m[i])]))) \o Flat(Tail(ps))

---------------------------------------------------------------------------
(* Values that are read: [k, v] with k one of nil, bool, num (v = [neg,    *)
(* b]), f32, f64, str, bin, time, arr, map (v = sequence of pairs).        *)

Val(k, v) == [k |-> k, v |-> v]
Nil == Val("nil", 0)
Wide(b, signed) ==
  LET neg == signed /\ b[1] >= 128
      f   == IF neg THEN 255 ELSE 0
  IN Val("num", [neg |-> neg, b |-> [k \in 1..8 |-> IF k <= 8 - Len(b) THEN f ELSE b[k - 8 + Len(b)]]])

\* The value of what was written.
RECURSIVE Canon(_)
ScalarVal(t, v) ==
  CASE t = "nil" -> Nil
    [] t = "bool" -> Val("bool", v)
    [] t \in Ints -> Wide(v, TRUE)
    [] t \in Uints -> Wide(v, FALSE)
    [] t = "float32" -> Val("f32", v)
    [] t = "float64" -> Val("f64", v)
    [] t = "string" -> Val("str", v)
    [] t = "bytes" -> Val("bin", v)
    [] t = "time" -> Val("time", [s |-> v.s, n |-> v.n])
    [] t \in {"array", "map"} -> Wide(v, FALSE)
Canon(x) ==
  LET n == Len(x.v) IN
  CASE x.t = "slice" -> Val("arr", [i \in 1..n |-> ScalarVal(x.e, x.v[i])])
    [] x.t = "anys"  -> Val("arr", [i \in 1..n |-> Canon(x.v[i])])
    [] x.t = "dict"  -> Val("map", [i \in 1..n |-> <<ScalarVal(x.e, x.v[i][1]), Canon(x.v[i][2])>>])
    [] x.t = "strs"  -> Val("map", [i \in 1..n |-> <<ScalarVal("string", x.v[i][1]), ScalarVal("string", x.v[i][2])>>])
    [] x.t = "anydict" -> Val("map", [i \in 1..n |-> <<Canon(x.v[i][1]), Canon(x.v[i][2])>>])
    [] OTHER -> ScalarVal(x.t, x.v)
\* A codec is not read back as one value.
RECURSIVE HasCodec(_)
HasCodec(x) ==
  CASE x.t = "codec" -> TRUE
    [] x.t = "anys" -> \E i \in 1..Len(x.v) : HasCodec(x.v[i])
    [] x.t \in {"dict", "anydict"} -> \E i \in 1..Len(x.v) : HasCodec(x.v[i][2])
    [] OTHER -> FALSE
OpVal(x) ==
  IF x.null = "nil" THEN Nil
  ELSE IF x.o # "any" THEN ScalarVal(x.o, x.v)
  ELSE IF HasCodec(x.v) \/ AnyBad(x.v) THEN Val("codec", 0)
  ELSE Canon(x.v)

---------------------------------------------------------------------------
(* Reading. p bytes of the input q have been used. An outcome is [r, p, v] *)
(* with r = "ok"; "err"; "maybe" (this value or an error); "free" (nothing *)
(* is said about it, and nothing after it is looked at).                   *)

Ok(p, v) == [r |-> "ok", p |-> p, v |-> v]
Err == [r |-> "err", p |-> 0, v |-> Nil]
Free == [r |-> "free", p |-> 0, v |-> Nil]
Maybe(p, v) == [r |-> "maybe", p |-> p, v |-> v]

Left(q, p) == Len(q) - p
Get(q, p, n) == Sub(q, p + 1, p + n)
\* A length of up to four bytes; more than 2^24 is as good as 2^30.
BE(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> b[1] * 256 + b[2]
    [] Len(b) = 4 -> IF b[1] > 0 THEN 1073741824 ELSE (b[2] * 256 + b[3]) * 256 + b[4]

\* What starts at p: its class c, its number or length bytes x, the position
\* after these. c is "short" if they are not there.
HeadAt(q, p) ==
  IF Left(q, p) = 0 THEN [c |-> "short", x |-> <<>>, p |-> p]
  ELSE
  LET b == q[p + 1]
      is(c, x) == [c |-> c, x |-> x, p |-> p + 1]
      with(c, n) == IF Left(q, p + 1) < n THEN [c |-> "short", x |-> <<>>, p |-> p]
                    ELSE [c |-> c, x |-> Get(q, p + 1, n), p |-> p + 1 + n]
  IN CASE b < 128 \/ b >= 224 -> is("fix", <<b>>)
       [] b < 144 -> is("map", <<b - 128>>)
       [] b < 160 -> is("arr", <<b - 144>>)
       [] b < 192 -> is("str", <<b - 160>>)
       [] OTHER -> (
          CASE b = 192 -> is("nil", <<>>)
            [] b = 193 -> is("bad", <<>>)
            [] b \in {194, 195} -> is("bool", <<b - 194>>)
            [] b = 196 -> with("bin", 1)
            [] b = 197 -> with("bin", 2)
            [] b = 198 -> with("bin", 4)
            [] b = 199 -> with("ext", 1)
            [] b = 200 -> with("ext", 2)
            [] b = 201 -> with("ext", 4)
            [] b = 202 -> with("f32", 4)
            [] b = 203 -> with("f64", 8)
            [] b = 204 -> with("uint", 1)
            [] b = 205 -> with("uint", 2)
            [] b = 206 -> with("uint", 4)
            [] b = 207 -> with("uint", 8)
            [] b = 208 -> with("int", 1)
            [] b = 209 -> with("int", 2)
            [] b = 210 -> with("int", 4)
            [] b = 211 -> with("int", 8)
            [] b = 212 -> is("ext", <<1>>)
            [] b = 213 -> is("ext", <<2>>)
            [] b = 214 -> is("ext", <<4>>)
            [] b = 215 -> is("ext", <<8>>)
            [] b = 216 -> is("ext", <<16>>)
            [] b = 217 -> with("str", 1)
            [] b = 218 -> with("str", 2)
            [] b = 219 -> with("str", 4)
            [] b = 220 -> with("arr", 2)
            [] b = 221 -> with("arr", 4)
            [] b = 222 -> with("map", 2)
            [] OTHER   -> with("map", 4))

\* Bytes of a string or byte array after its head.
Body(q, h, k) ==
  LET n == BE(h.x) IN
  IF Left(q, h.p) < n THEN Err ELSE Ok(h.p + n, Val(k, Bs(Get(q, h.p, n))))

\* A time in an extension. 13 is what NodeJS uses.
TimeOf(q, h) ==
  LET n == BE(h.x) IN
  IF Left(q, h.p) < 1 THEN Err
  ELSE IF q[h.p + 1] \notin {255, 13} THEN Err
  ELSE IF Left(q, h.p + 1) < n THEN Err
  ELSE LET d == Get(q, h.p + 1, n)
           at(s, nb) ==
             \* Nanoseconds of four bytes from a second up are carried somehow.
             LET big == nb[1] > 59 \/ (nb[1] = 59 /\ nb[2] * 65536 + nb[3] * 256 + nb[4] > 10144255) IN
             Ok(h.p + 1 + n, IF big THEN Val("any", 0)
                ELSE Val("time", [s |-> s, n |-> ((nb[1] * 256 + nb[2]) * 256 + nb[3]) * 256 + nb[4]]))
       IN CASE n = 4 -> at(<<0, 0, 0, 0>> \o d, <<0, 0, 0, 0>>)
            [] n = 8 -> LET hi == d[1] * 256 + d[2]
                            lo == d[3] * 256 + d[4]
                            \* The upper 30 bits.
                            w1 == hi \div 4
                            w0 == (hi % 4) * 16384 + lo \div 4
                        IN at(<<0, 0, 0, lo % 4>> \o Sub(d, 5, 8), <<w1 \div 256, w1 % 256, w0 \div 256, w0 % 256>>)
            [] n = 12 -> at(Sub(d, 5, 12), Sub(d, 1, 4))
            [] OTHER -> Err

Num(h) == Wide(h.x, h.c # "uint")

\* Skipping: rem values are still to be passed over. Every one of them takes
\* at least one byte.
RECURSIVE SkipFrom(_, _, _)
SkipFrom(q, p, rem) ==
  IF rem = 0 THEN Ok(p, Nil)
  ELSE IF rem > Left(q, p) THEN Err
  ELSE LET h == HeadAt(q, p) IN
       CASE h.c \in {"short", "bad"} -> Err
         [] h.c \in {"str", "bin", "ext"} ->
              LET n == BE(h.x) + (IF h.c = "ext" THEN 1 ELSE 0) IN
              IF Left(q, h.p) < n THEN Err ELSE SkipFrom(q, h.p + n, rem - 1)
         [] h.c = "arr" -> IF BE(h.x) > Len(q) THEN Err ELSE SkipFrom(q, h.p, rem - 1 + BE(h.x))
         [] h.c = "map" -> IF BE(h.x) > Len(q) THEN Err ELSE SkipFrom(q, h.p, rem - 1 + 2 * BE(h.x))
         [] OTHER -> SkipFrom(q, h.p, rem - 1)

RECURSIVE Same(_, _)
Same(a, b) ==
  \/ "any" \in {a.k, b.k}
  \/ a.k = b.k
     /\ CASE a.k = "arr" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : Same(a.v[i], b.v[i])
       [] a.k = "map" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) :
            Same(a.v[i][1], b.v[i][1]) /\ Same(a.v[i][2], b.v[i][2])
       [] OTHER -> a.v = b.v

\* Keys for which it is not said what becomes of the entries.
Doubtful(es) ==
  \/ \E i, j \in 1..Len(es) : i < j /\ Same(es[i][1], es[j][1])
  \/ \E i, j \in 1..Len(es) : i < j /\ es[i][1].k \in {"f32", "f64"} /\ es[j][1].k \in {"f32", "f64"}
  \/ \E i \in 1..Len(es) : es[i][1].k = "any"

RECURSIVE AnyAt(_, _), Elems(_, _, _, _), Entries(_, _, _, _)
AnyAt(q, p) ==
  LET h == HeadAt(q, p) IN
  CASE h.c \in {"short", "bad"} -> Err
    [] h.c \in {"fix", "int", "uint"} -> Ok(h.p, Num(h))
    [] h.c = "nil" -> Ok(h.p, Nil)
    [] h.c = "bool" -> Ok(h.p, Val("bool", h.x[1] = 1))
    [] h.c \in {"f32", "f64"} -> Ok(h.p, Val(h.c, h.x))
    [] h.c \in {"str", "bin"} -> Body(q, h, h.c)
    [] h.c = "ext" -> TimeOf(q, h)
    [] h.c = "arr" -> IF BE(h.x) > Left(q, h.p) THEN Err ELSE Elems(q, h.p, BE(h.x), <<>>)
    [] h.c = "map" -> IF BE(h.x) > Left(q, h.p) THEN Err ELSE Entries(q, h.p, BE(h.x), <<>>)
Elems(q, p, n, acc) ==
  IF n = 0 THEN Ok(p, Val("arr", acc))
  ELSE LET x == AnyAt(q, p) IN
       IF x.r # "ok" THEN x ELSE Elems(q, x.p, n - 1, Append(acc, x.v))
Entries(q, p, n, acc) ==
  IF n = 0 THEN Ok(p, IF Doubtful(acc) THEN Val("any", 0) ELSE Val("map", acc))
  ELSE LET k == AnyAt(q, p) IN
       IF k.r # "ok" THEN k
       ELSE IF k.v.k \in {"arr", "map", "bin"} THEN Err
       ELSE LET x == AnyAt(q, k.p) IN
            IF x.r # "ok" THEN x ELSE Entries(q, x.p, n - 1, Append(acc, <<k.v, x.v>>))

\* Does a number fit so many bytes?
FitsInt(v, k) ==
  LET f == IF v.neg THEN 255 ELSE 0 IN
  /\ ~v.neg => v.b[1] < 128
  /\ All(v.b, 1, 8 - k, f)
  /\ (v.b[9 - k] >= 128) = v.neg
FitsUint(v, k) == ~v.neg /\ All(v.b, 1, 8 - k, 0)

Width(o) == CASE o \in {"int8", "uint8"} -> 1 [] o \in {"int16", "uint16"} -> 2
              [] o \in {"int32", "uint32"} -> 4 [] OTHER -> 8

Read(q, p, o) ==
  LET h == HeadAt(q, p) IN
  IF h.c = "short" THEN Err
  ELSE CASE o = "bool" -> IF h.c = "bool" THEN Ok(h.p, Val("bool", h.x[1] = 1)) ELSE Err
    [] o \in Ints -> IF h.c \notin {"fix", "int", "uint"} \/ ~FitsInt(Num(h).v, Width(o)) THEN Err
                     ELSE IF h.c = "uint" THEN Maybe(h.p, Num(h)) ELSE Ok(h.p, Num(h))
    [] o \in Uints -> IF h.c \notin {"fix", "int", "uint"} \/ ~FitsUint(Num(h).v, Width(o)) THEN Err
                      ELSE Ok(h.p, Num(h))
    [] o = "float32" -> CASE h.c = "f32" -> Ok(h.p, Val("f32", h.x))
                          [] h.c = "f64" -> Ok(h.p, Val("f32of64", h.x))
                          [] OTHER -> Err
    [] o = "float64" -> IF h.c = "f64" THEN Ok(h.p, Val("f64", h.x))
                        ELSE IF h.c = "f32" THEN Free ELSE Err
    [] o = "string" -> IF h.c = "str" THEN Body(q, h, "str") ELSE IF h.c = "arr" THEN Free ELSE Err
    [] o = "bytes" -> IF h.c = "bin" THEN Body(q, h, "bin")
                      ELSE IF h.c = "nil" THEN Ok(h.p, Val("bin", <<>>))
                      ELSE IF h.c = "arr" THEN Free ELSE Err
    [] o = "time" -> CASE h.c = "ext" -> TimeOf(q, h)
                       [] h.c = "str" -> LET s == Body(q, h, "timestr") IN IF s.r = "ok" THEN Maybe(s.p, s.v) ELSE s
                       [] h.c = "arr" -> Free
                       [] OTHER -> Err
    [] o = "array" -> IF h.c = "arr" THEN Ok(h.p, Wide(h.x, FALSE))
                      ELSE IF h.c = "nil" THEN Ok(h.p, Wide(<<0>>, FALSE)) ELSE Err
    [] o = "map" -> IF h.c = "map" THEN Ok(h.p, Wide(h.x, FALSE))
                    ELSE IF h.c = "nil" THEN Ok(h.p, Wide(<<0>>, FALSE)) ELSE Err
    [] o = "any" -> AnyAt(q, p)
    [] o = "skip" -> SkipFrom(q, p, 1)
    [] o = "isnil" -> IF h.c = "nil" THEN Ok(h.p, Val("bool", TRUE)) ELSE Ok(p, Val("bool", FALSE))

\* The first byte is there but what it announces is not.
ReadOp(q, p, x) ==
  IF x.o = "isnil" /\ Left(q, p) > 0
  THEN IF q[p + 1] = 192 THEN Ok(p + 1, Val("bool", TRUE)) ELSE Ok(p, Val("bool", FALSE))
  ELSE IF x.null /\ Left(q, p) > 0 /\ q[p + 1] = 192 THEN Ok(p + 1, Nil)
  ELSE Read(q, p, x.o)

RECURSIVE ReadAll(_, _, _)
ReadAll(q, p, ops) ==
  IF ops = <<>> THEN <<>>
  ELSE LET x == ReadOp(q, p, Head(ops)) IN
       IF x.r = "ok" THEN <<x>> \o ReadAll(q, x.p, Tail(ops)) ELSE <<x>>

---------------------------------------------------------------------------
(* What is wanted for a record.                                            *)

WriteWant(rec) ==
  LET n == Len(rec.ops)
      ps == Cat([i \in 1..n |-> OpPieces(rec.ops[i])])
  IN [bad |-> \E i \in 1..n : OpBad(rec.ops[i]),
      size |-> PLen(ps), out |-> ps, vals |-> [i \in 1..n |-> OpVal(rec.ops[i])]]

\* A slice of codecs, each being a sequence of operations.
SliceWant(rec) ==
  LET n == Len(rec.items)
      item(i) == Cat([j \in 1..Len(rec.items[i]) |-> OpPieces(rec.items[i][j])])
      ps == Lit(ArrHead(Four(n))) \o Cat([i \in 1..n |-> item(i)])
  IN [bad |-> \E i \in 1..n : \E j \in 1..Len(rec.items[i]) : OpBad(rec.items[i][j]),
      size |-> PLen(ps), out |-> ps,
      vals |-> [i \in 1..n |-> [j \in 1..Len(rec.items[i]) |-> OpVal(rec.items[i][j])]]]

ReadWant(rec) == ReadAll(rec.q, 0, rec.ops)

\* Reading a slice of codecs, each being a sequence of read operations.
RECURSIVE Items(_, _, _, _, _)
Items(q, p, n, ops, acc) ==
  IF n = 0 THEN [r |-> "ok", items |-> acc]
  ELSE LET xs == ReadAll(q, p, ops)
           z == xs[Len(xs)]
       IN IF z.r # "ok" THEN [r |-> z.r, items |-> <<>>]
          ELSE Items(q, z.p, n - 1, ops, Append(acc, [j \in 1..Len(xs) |-> xs[j].v]))
SliceReadWant(rec) ==
  LET h == HeadAt(rec.q, 0) IN
  IF h.c = "nil" THEN [r |-> "ok", items |-> <<>>]
  ELSE IF h.c # "arr" \/ BE(h.x) > Left(rec.q, h.p) THEN [r |-> "err", items |-> <<>>]
  ELSE Items(rec.q, h.p, BE(h.x), rec.ops, <<>>)

Nest(rec) == IF rec.depth <= 1000 THEN "ok" ELSE "maybe"

Want(rec) ==
  CASE rec.op = "write" -> WriteWant(rec)
    [] rec.op = "slice" -> SliceWant(rec)
    [] rec.op = "read" -> ReadWant(rec)
    [] rec.op = "sliceread" -> SliceReadWant(rec)
    [] rec.op = "nest" -> Nest(rec)

\* What was written is read back, nothing is left, and it can be skipped.
Literal(r) == \A i \in 1..Len(r) : r[i][1] = 0
Plain(r) == [i \in 1..Len(r) |-> r[i][2]]
WriteThm(rec) ==
  rec.op = "write" =>
  \A i \in 1..Len(rec.ops) :
    LET x == rec.ops[i]
        r == Flat(OpPieces(x))
        v == OpVal(x)
    IN (~OpBad(x) /\ x.o # "nil" /\ v.k # "codec" /\ Literal(r)) =>
       LET q == Plain(r)
           y == ReadOp(q, 0, [o |-> x.o, null |-> x.null # "no"])
       IN /\ y.r = "ok" /\ y.p = Len(q)
          /\ Same(y.v, v)
          /\ x.o \notin {"array", "map"} => SkipFrom(q, 0, 1) = Ok(Len(q), Nil)
          /\ \A n \in 0..(Len(q) - 1) : ReadOp(Sub(q, 1, n), 0, [o |-> x.o, null |-> x.null # "no"]).r = "err"
=============================================================================
