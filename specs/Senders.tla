------------------------------ MODULE Senders ------------------------------
(***************************************************************************)
(* Several senders on one connection. What is recorded of them:            *)
(*   call   a sender hands over a frame (flush: and wants it sent now)     *)
(*   ret    that call returned: accepted or refused                        *)
(*   wire   the network was given the last byte of a frame                 *)
(*   trash  the network was given bytes that are no frame of any sender    *)
(*   fail   from here on the network takes nothing                         *)
(*   end    everybody has returned and everything has been flushed         *)
(* A frame is <<sender, number>>, numbered in the order of its calls.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

SStart == [called |-> {}, accepted |-> {}, refused |-> {}, wire |-> {}, failed |-> FALSE]

SAfter(s, op) ==
  LET f == <<op.p, op.k>> IN
  CASE op.op = "call" -> {[s EXCEPT !.called = @ \cup {f}]}
    [] op.op = "ret" ->
         IF op.ok
         THEN IF op.long \/ (op.flush /\ f \notin s.wire) THEN {}
              ELSE {[s EXCEPT !.accepted = @ \cup {f}]}
         ELSE IF ~op.long /\ ~s.failed THEN {}      \* refused without a reason
              ELSE IF op.long /\ f \in s.wire THEN {}
              ELSE {[s EXCEPT !.refused = @ \cup {f}]}
    [] op.op = "wire" ->
         \* Every frame once, only frames that were handed over and not refused,
         \* after all that the sender handed over before.
         IF f \in s.called \ (s.wire \cup s.refused)
            /\ \A g \in s.called : (g[1] = f[1] /\ g[2] < f[2]) => g \in s.wire \cup s.refused
         THEN {[s EXCEPT !.wire = @ \cup {f}]} ELSE {}
    [] op.op = "trash" -> {}
    [] op.op = "fail" -> {[s EXCEPT !.failed = TRUE]}
    [] op.op = "flushed" -> IF s.failed \/ s.accepted \subseteq s.wire \/ op.ok = FALSE THEN {s} ELSE {}
    [] op.op = "end" -> IF s.failed \/ s.wire = s.accepted THEN {s} ELSE {}
=============================================================================
