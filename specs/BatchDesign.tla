---------------------------- MODULE BatchDesign ----------------------------
(***************************************************************************)
(* Senders hand frames to a loop over a channel of Cap places. The loop    *)
(* fills the buffer and passes it on when the next frame does not fit or   *)
(* nothing waits. Closing waits for senders that are about to hand over.   *)
(* Every run it makes is allowed by Batch.                                 *)
(***************************************************************************)
EXTENDS Batch
CONSTANTS Procs, Count, Sizes, Room, Cap
VARIABLES clock, sends, doing, chan, buf, batches, closing, closed, trap
vars == <<clock, sends, doing, chan, buf, batches, closing, closed, trap>>

\* sends[k].to = 0 while the call goes on; doing[p] is its index, 0: none.
Init == /\ clock = 1 /\ sends = <<>> /\ doing = [p \in Procs |-> 0]
        /\ chan = <<>> /\ buf = <<>> /\ batches = <<>>
        /\ closing = [from |-> 0, to |-> 0] /\ closed = FALSE /\ trap = 0

Mine(p) == Cardinality({k \in 1..Len(sends) : sends[k].p = p})
Begin(p, size) ==
  /\ doing[p] = 0 /\ Mine(p) < Count
  /\ sends' = Append(sends, [p |-> p, size |-> size, from |-> clock, to |-> 0, res |-> "-"])
  /\ doing' = [doing EXCEPT ![p] = Len(sends) + 1]
  /\ clock' = clock + 1
  /\ UNCHANGED <<chan, buf, batches, closing, closed, trap>>

\* The sender holds the lock while it hands over ("at": it looked and may go on).
Look(p) ==
  LET k == doing[p] IN
  /\ k # 0 /\ sends[k].res = "-"
  /\ sends' = [sends EXCEPT ![k].res = IF sends[k].size + 3 > Room THEN "large" ELSE IF closed THEN "closed" ELSE "at"]
  /\ UNCHANGED <<clock, doing, chan, buf, batches, closing, closed, trap>>
Hand(p) ==
  LET k == doing[p] IN
  /\ k # 0 /\ sends[k].res = "at" /\ Len(chan) < Cap
  /\ chan' = Append(chan, k)
  /\ sends' = [sends EXCEPT ![k].res = "ok"]
  /\ UNCHANGED <<clock, doing, buf, batches, closing, closed, trap>>
Return(p) ==
  LET k == doing[p] IN
  /\ k # 0 /\ sends[k].res \in {"ok", "large", "closed"}
  /\ sends' = [sends EXCEPT ![k].to = clock]
  /\ doing' = [doing EXCEPT ![p] = 0]
  /\ clock' = clock + 1
  /\ UNCHANGED <<chan, buf, batches, closing, closed, trap>>

\* Passing the buffer on; the other side may crash while it reads.
Full == Sum(sends, buf)
Passed == [size |-> Full, fs |-> buf]
Pass == batches' = IF trap > 0 \/ buf = <<>> THEN batches ELSE Append(batches, Passed)
Take == /\ chan # <<>>
        /\ chan' = Tail(chan)
        /\ IF Full + 3 + sends[Head(chan)].size > Room
           THEN Pass /\ buf' = << Head(chan) >>
           ELSE batches' = batches /\ buf' = Append(buf, Head(chan))
        /\ UNCHANGED <<clock, sends, doing, closing, closed, trap>>
Flush == /\ chan = <<>> /\ buf # <<>>
         /\ Pass /\ buf' = <<>>
         /\ UNCHANGED <<clock, sends, doing, chan, closing, closed, trap>>
Trap == /\ trap = 0 /\ trap' = clock /\ clock' = clock + 1
        /\ UNCHANGED <<sends, doing, chan, buf, batches, closing, closed>>

CloseBegin == /\ closing.from = 0
              /\ closing' = [closing EXCEPT !.from = clock] /\ clock' = clock + 1
              /\ UNCHANGED <<sends, doing, chan, buf, batches, closed, trap>>
CloseDo == /\ (closing.from > 0 \/ trap > 0) /\ ~closed
           /\ \A p \in Procs : (IF doing[p] = 0 THEN "" ELSE sends[doing[p]].res) # "at"
           /\ closed' = TRUE
           /\ UNCHANGED <<clock, sends, doing, chan, buf, batches, closing, trap>>
CloseEnd == /\ closing.from > 0 /\ closed /\ closing.to = 0
            /\ closing' = [closing EXCEPT !.to = clock] /\ clock' = clock + 1
            /\ UNCHANGED <<sends, doing, chan, buf, batches, closed, trap>>

Loop == Take \/ Flush
Next == \/ \E p \in Procs : (\E s \in Sizes : Begin(p, s)) \/ Look(p) \/ Hand(p) \/ Return(p)
        \/ Loop \/ Trap \/ CloseBegin \/ CloseDo \/ CloseEnd
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Loop)
        /\ \A p \in Procs : WF_vars(Look(p) \/ Hand(p) \/ Return(p))

\* The run so far: calls that go on can still return anything.
Far == clock + 1
SoFar == [room |-> Room, sends |-> [k \in DOMAIN sends |-> IF sends[k].to > 0 THEN sends[k]
                                    ELSE [sends[k] EXCEPT !.to = Far, !.res = IF @ = "ok" THEN "ok" ELSE "-"]],
          batches |-> batches, close |-> closing, trap |-> trap]
\* The same in the middle of things, where frames are still on their way.
Allowed == /\ Packed(SoFar) /\ InOrder(SoFar) /\ Answers(SoFar)
           /\ NoTwice(Flat(batches)) /\ \A k \in Range(Flat(batches)) : sends[k].res = "ok"
           /\ (chan = <<>> /\ buf = <<>>) => Complete(SoFar)
NothingStays == [](chan # <<>> => <>(chan = <<>>)) /\ []<>(buf = <<>>)
EveryCallReturns == \A p \in Procs : []<>(doing[p] = 0)
=============================================================================
