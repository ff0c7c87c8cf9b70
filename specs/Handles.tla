------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Handles for live objects: fresh when handed out, gone once removed.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

HStart == [m |-> {}, used |-> {}]

HAfter(s, op) ==
  LET of == {x \in s.m : x[1] = op.h} IN
  CASE op.op = "put" -> IF op.h \in s.used THEN {}
                        ELSE {[m |-> s.m \cup {<<op.h, op.v>>}, used |-> s.used \cup {op.h}]}
    [] op.op = "get" -> IF of = {} THEN IF op.ok THEN {} ELSE {s}
                        ELSE IF op.ok /\ of = {<<op.h, op.v>>} THEN {s} ELSE {}
    [] op.op = "remove" -> IF of = {} THEN IF op.ok THEN {} ELSE {s}
                           ELSE IF op.ok /\ of = {<<op.h, op.v>>} THEN {[s EXCEPT !.m = @ \ of]} ELSE {}
=============================================================================
