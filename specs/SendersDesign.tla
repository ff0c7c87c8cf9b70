--------------------------- MODULE SendersDesign ---------------------------
(***************************************************************************)
(* How frames get onto the connection: a sender takes the lock, puts the   *)
(* length and the body into the buffer, flushes and releases. Every        *)
(* behaviour is one that Senders allows. Frames are of one byte of length  *)
(* and two of body; the buffer holds Room bytes and is handed on when full.*)
(***************************************************************************)
EXTENDS Senders
CONSTANTS Procs, Count, Room
VARIABLES lock, pc, num, buf, out, abs, flush
vars == <<lock, pc, num, buf, out, abs, flush>>

Init == /\ lock = 0 /\ pc = [p \in Procs |-> "idle"] /\ num = [p \in Procs |-> 0]
        /\ buf = <<>> /\ out = <<>> /\ abs = SStart /\ flush = [p \in Procs |-> FALSE]

Stuck == [SStart EXCEPT !.wire = {<<0, 0>>}]
Follow(st, op) == IF st = Stuck \/ SAfter(st, op) = {} THEN Stuck ELSE CHOOSE x \in SAfter(st, op) : TRUE
Last(q) == q[Len(q)]
Op(kind, p) == [op |-> kind, p |-> p, k |-> num'[p], ok |-> TRUE, long |-> FALSE, flush |-> flush'[p]]

\* The network gets q: every completed frame counts, if it is in one piece.
RECURSIVE Arrive(_, _, _)
Arrive(st, o, q) ==
  IF q = <<>> THEN st
  ELSE LET b == Head(q)
           o2 == Append(o, b)
           n == Len(o2)
           whole == b[3] = 3 => (n >= 3 /\ o2[n - 1] = <<b[1], b[2], 2>> /\ o2[n - 2] = <<b[1], b[2], 1>>)
           nx == IF ~whole THEN Stuck
                 ELSE IF b[3] = 3 THEN Follow(st, [op |-> "wire", p |-> b[1], k |-> b[2]]) ELSE st
       IN Arrive(nx, o2, Tail(q))

Call(p) == /\ pc[p] = "idle" /\ num[p] < Count
           /\ num' = [num EXCEPT ![p] = @ + 1] /\ \E b \in BOOLEAN : flush' = [flush EXCEPT ![p] = b]
           /\ pc' = [pc EXCEPT ![p] = "lock"] /\ abs' = Follow(abs, Op("call", p))
           /\ UNCHANGED <<lock, buf, out>>
Lock(p) == /\ pc[p] = "lock" /\ lock = 0 /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "len"]
           /\ UNCHANGED <<num, buf, out, abs, flush>>
Put(p, bytes, nxt) ==
  LET b2 == buf \o bytes IN
  /\ pc' = [pc EXCEPT ![p] = nxt]
  /\ IF Len(b2) > Room
     THEN buf' = SubSeq(b2, Room + 1, Len(b2)) /\ out' = out \o SubSeq(b2, 1, Room)
          /\ abs' = Arrive(abs, out, SubSeq(b2, 1, Room))
     ELSE buf' = b2 /\ UNCHANGED <<out, abs>>
  /\ UNCHANGED <<lock, num, flush>>
Length(p) == pc[p] = "len" /\ Put(p, << <<p, num[p], 1>> >>, "body")
Body(p) == pc[p] = "body" /\ Put(p, << <<p, num[p], 2>>, <<p, num[p], 3>> >>, IF flush[p] THEN "flush" ELSE "unlock")
Flush(p) == /\ pc[p] = "flush" /\ out' = out \o buf /\ buf' = <<>> /\ abs' = Arrive(abs, out, buf)
            /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED <<lock, num, flush>>
Unlock(p) == /\ pc[p] = "unlock" /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "ret"] /\ UNCHANGED <<num, buf, out, abs, flush>>
Ret(p) == /\ pc[p] = "ret" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<lock, num, buf, out, flush>>
          /\ abs' = Follow(abs, Op("ret", p))
\* In the end somebody flushes what is left.
AllDone == \A p \in Procs : pc[p] = "idle" /\ num[p] = Count
Final == /\ AllDone /\ buf # <<>> /\ out' = out \o buf /\ buf' = <<>>
         /\ abs' = Follow(Arrive(abs, out, buf), [op |-> "end", p |-> 0, k |-> 0])
         /\ UNCHANGED <<lock, pc, num, flush>>
Next == (\E p \in Procs : Call(p) \/ Lock(p) \/ Length(p) \/ Body(p) \/ Flush(p) \/ Unlock(p) \/ Ret(p)) \/ Final
Spec == Init /\ [][Next]_vars
Allowed == abs # Stuck
=============================================================================
