------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* The unbounded receive queue. `q' holds what was accepted and not yet    *)
(* handed out. Whoever takes an item is expected to call Load: only then   *)
(* is the next one sure to be there (ready), and the end sure to be seen   *)
(* (ended). What can be there earlier is left open.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

QStart == [q |-> <<>>, ready |-> FALSE, disposed |-> FALSE, ended |-> FALSE]

QAfter(s, op) ==
  CASE op.op = "put" ->
         IF s.disposed THEN IF op.ok THEN {} ELSE {s}
         ELSE IF ~op.ok THEN {}
         ELSE {[s EXCEPT !.q = Append(@, op.v), !.ready = @ \/ s.q = <<>>]}
    [] op.op = "take" ->
        (CASE op.got = "item" -> IF s.q # <<>> /\ Head(s.q) = op.v
                                 THEN {[s EXCEPT !.q = Tail(@), !.ready = FALSE]} ELSE {}
           [] op.got = "end"  -> IF s.q = <<>> /\ s.disposed THEN {[s EXCEPT !.ended = TRUE]} ELSE {}
           [] op.got = "none" -> IF (s.q # <<>> /\ s.ready) \/ (s.q = <<>> /\ s.ended) THEN {} ELSE {s})
    [] op.op = "load" -> {[s EXCEPT !.ready = s.q # <<>>, !.ended = @ \/ (s.disposed /\ s.q = <<>>)]}
    [] op.op = "dispose" -> {[s EXCEPT !.disposed = TRUE, !.ended = @ \/ s.q = <<>>]}

=============================================================================
