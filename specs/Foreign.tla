------------------------------ MODULE Foreign ------------------------------
(***************************************************************************)
(* One end written in another language (Rust), with its caller, its        *)
(* handlers and a peer that sends what a script says. Every step is done   *)
(* when the next one begins, so what is sent on each stream and what each  *)
(* call is given are functions of the script.                              *)
(*                                                                         *)
(* Handlers of streams whose data begins with 64 to 127 give a few items   *)
(* and have more to come: only a CANCEL ends those.                        *)
(*                                                                         *)
(* An end of this kind has no back-pressure for the answers it sends, and  *)
(* it asks for everything at once: that is what is not specified here.     *)
(***************************************************************************)
EXTENDS Frames, FiniteSets

Max == <<32767, 65535>>
AppError == <<0, 513>>
No == Bs(<<110, 111>>)
L(n) == <<n \div 65536, n % 65536>>
Kind(k) == CASE k = "rr" -> RR [] k = "fnf" -> FNF [] k = "rs" -> RS [] OTHER -> RC

\* The id of the k-th call: callers of the two sides never use the same one.
Id(side, k) == L((IF side = "host" THEN 1 ELSE 2) + 2 * (k - 1))

Req(t, id, a) == [Frame(t, id) EXCEPT !.n = IF t \in {RS, RC} THEN Max ELSE Zero, !.md = a.md, !.data = a.data]
Pay(id, md, data, last) == [Frame(PAYLOAD, id) EXCEPT !.next = TRUE, !.comp = last, !.md = md, !.data = data]
Done(id) == [Frame(PAYLOAD, id) EXCEPT !.comp = TRUE]
Err(id) == [Frame(ERROR, id) EXCEPT !.n = AppError, !.data = No]

\* calls: [k, id, got, over, open, queue, credit, shut]; chans: the peer's
\* channels that have not ended; sent: frames in order; fnf: what handlers got.
\* open: answers whose handler has more to come; gone: those the peer cancelled.
Start == [calls |-> <<>>, chans |-> {}, asked |-> {}, sent |-> <<>>, fnf |-> <<>>, open |-> {}, gone |-> {}, cancelled |-> {}]

Emit(s, fs) == [s EXCEPT !.sent = @ \o fs]

\* A channel sends what it may.
Flush(s, k) ==
  LET c == s.calls[k]
      n == IF Len(c.queue) < c.credit THEN Len(c.queue) ELSE c.credit
      now == [i \in 1..n |-> Pay(c.id, c.queue[i].md, c.queue[i].data, FALSE)]
      left == SubSeq(c.queue, n + 1, Len(c.queue))
      fin == c.shut = "asked" /\ left = <<>>
  IN Emit([s EXCEPT !.calls[k] = [c EXCEPT !.queue = left, !.credit = @ - n, !.shut = IF fin THEN "done" ELSE @]],
          now \o (IF fin THEN <<Done(c.id)>> ELSE <<>>))

Call(side, s, a) ==
  LET id == Id(side, Len(s.calls) + 1)
      t == Kind(a.k)
      c == [k |-> a.k, id |-> id, got |-> <<>>, over |-> FALSE, left |-> FALSE, open |-> FALSE, queue |-> <<>>, credit |-> 0, shut |-> "no"]
      u == [s EXCEPT !.calls = Append(@, c)]
  IN IF t = RC THEN u ELSE Emit(u, <<Req(t, id, a)>>)

Item(s, a) ==
  LET c == s.calls[a.s] IN
  IF ~c.open THEN Emit([s EXCEPT !.calls[a.s].open = TRUE], <<Req(RC, c.id, a)>>)
  ELSE Flush([s EXCEPT !.calls[a.s].queue = Append(@, [md |-> a.md, data |-> a.data])], a.s)

Close(s, a) == Flush([s EXCEPT !.calls[a.s].shut = "asked"], a.s)

\* The caller loses interest: it gets nothing more, and the peer is told when it sends more.
Leave(s, a) == [s EXCEPT !.calls[a.s].left = TRUE]

Result(f) == [r |-> "item", md |-> f.md, data |-> f.data]
End == [r |-> "end"]
Failed(f) == [r |-> "err", code |-> f.n, msg |-> f.data]

\* A frame for a call of this end.
Reply(s, k, f) ==
  LET c == s.calls[k]
      give(q, over) == [s EXCEPT !.calls[k].got = @ \o q, !.calls[k].over = over]
  IN CASE f.type = REQN ->
            (IF c.k # "rc" THEN s
             ELSE LET n == IF f.n[1] > 0 THEN 65536 ELSE f.n[2]
                  IN Flush([s EXCEPT !.calls[k].credit = @ + n], k))
       [] c.over \/ c.k = "fnf" -> s
       [] c.left -> [s EXCEPT !.cancelled = IF f.type = PAYLOAD /\ f.next /\ c.k # "rr" THEN @ \cup {c.id} ELSE @,
                              !.calls[k].over = f.type = ERROR \/ f.comp \/ c.k = "rr"]
       [] f.type = ERROR -> give(<<Failed(f)>>, TRUE)
       [] f.type = PAYLOAD /\ c.k = "rr" -> (IF f.next THEN give(<<Result(f)>>, TRUE) ELSE s)
       [] f.type = PAYLOAD -> give((IF f.next THEN <<Result(f)>> ELSE <<>>) \o (IF f.comp THEN <<End>> ELSE <<>>), f.comp)
       [] OTHER -> s

\* A frame of a call of the peer. The first byte of the data tells the handler what to do.
Answer(s, f) ==
  LET b == IF f.data = <<>> THEN 0 ELSE At(f.data, 1) IN
  CASE f.type = RR -> Emit(s, IF b % 2 = 1 THEN <<Err(f.id)>> ELSE <<Pay(f.id, f.md, f.data, TRUE)>>)
    [] f.type = FNF -> [s EXCEPT !.fnf = Append(@, [md |-> f.md, data |-> f.data])]
    [] f.type = RS /\ b \in 64..127 ->
         Emit([s EXCEPT !.open = @ \cup {f.id}], [i \in 1..(b % 4) |-> Pay(f.id, f.md, f.data, FALSE)])
    [] f.type = CANCEL -> [s EXCEPT !.chans = @ \ {f.id}, !.open = @ \ {f.id},
                                    !.gone = IF f.id \in s.open \cup s.chans THEN @ \cup {f.id} ELSE @]
    [] f.type = RS -> Emit(s, [i \in 1..(b % 4) |-> Pay(f.id, f.md, f.data, FALSE)]
                              \o (IF b >= 128 THEN <<Err(f.id)>> ELSE <<Done(f.id)>>))
    [] f.type = RC -> Emit([s EXCEPT !.chans = @ \cup {f.id}, !.asked = @ \cup {f.id}], <<Pay(f.id, f.md, f.data, FALSE)>>)
    [] f.type = PAYLOAD /\ f.id \in s.chans ->
         Emit([s EXCEPT !.chans = IF f.comp THEN @ \ {f.id} ELSE @],
              (IF f.next THEN <<Pay(f.id, f.md, f.data, FALSE)>> ELSE <<>>) \o (IF f.comp THEN <<Done(f.id)>> ELSE <<>>))
    [] OTHER -> s

Step(side, s, a) ==
  CASE a.a = "call" -> Call(side, s, a)
    [] a.a = "item" -> Item(s, a)
    [] a.a = "leave" -> Leave(s, a)
    [] a.a = "close" -> Close(s, a)
    [] OTHER -> LET own == {k \in 1..Len(s.calls) : s.calls[k].id = a.f.id}
                IN IF own # {} THEN Reply(s, CHOOSE k \in own : TRUE, a.f) ELSE Answer(s, a.f)

RECURSIVE After(_, _, _)
After(side, s, p) == IF p = <<>> THEN s ELSE After(side, Step(side, s, Head(p)), Tail(p))

RECURSIVE Ids(_, _)
Ids(q, seen) == IF q = <<>> THEN seen
                ELSE Ids(Tail(q), IF \E i \in 1..Len(seen) : seen[i] = Head(q).id THEN seen ELSE Append(seen, Head(q).id))
On(q, id) == SelectSeq(q, LAMBDA f : f.id = id)

\* The peer's frames as bytes, then what is expected.
SocketBytes(r) == [k \in 1..Len(r.p) |-> IF r.p[k].a = "peer" THEN Encode(r.p[k].f) ELSE <<>>]
SocketWant(r) ==
  LET s == After(r.side, Start, r.p)
      ids == Ids(s.sent, <<>>)
  IN [sent |-> [i \in 1..Len(ids) |-> [id |-> ids[i], fs |-> On(s.sent, ids[i]), asks |-> ids[i] \in s.asked]],
      gone |-> s.gone, cancelled |-> s.cancelled, held |-> Cardinality(s.open),
      results |-> [k \in 1..Len(s.calls) |-> s.calls[k].got],
      fnf |-> s.fnf, bytes |-> SocketBytes(r)]

\* Nothing follows the end of an answer, and no call gets anything after its end.
Ends(f) == f.type = ERROR \/ (f.type = PAYLOAD /\ f.comp)
SocketThm(r) ==
  r.op = "socket" =>
    LET w == SocketWant(r) IN
    /\ \A i \in 1..Len(w.sent) : LET q == w.sent[i].fs IN \A n \in 1..Len(q) : Ends(q[n]) => n = Len(q)
    /\ \A k \in 1..Len(w.results) : LET q == w.results[k] IN \A n \in 1..Len(q) : q[n].r # "item" => n = Len(q)

MetaWant(r) == [q |-> Limbs(r.i) \o Limbs(Zero)]
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Joined(Tail(q))
PlainStream(r) == [q |-> Joined([k \in 1..Len(r.fs) |-> U24(RLen(r.fs[k])) \o r.fs[k]])]

ForeignWant(r) ==
  CASE r.op = "frame" -> FrameWant(r)
    [] r.op = "stream" -> PlainStream(r)
    [] r.op = "bytes" -> BytesWant(r)
    [] r.op = "metadata" -> MetaWant(r)
    [] r.op = "socket" -> SocketWant(r)
ForeignThm(r) == FrameThm(r) /\ SocketThm(r)
=============================================================================
