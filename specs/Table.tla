------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The table of live streams: a map from ids to streams.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

TStart == {}     \* of <<id, stream>>

TAfter(m, op) ==
  LET of == {x \in m : x[1] = op.id} IN
  CASE op.op = "add" -> {(m \ of) \cup {<<op.id, op.v>>}}
    [] op.op = "remove" -> {m \ of}
    [] op.op = "get" -> IF of = {} THEN IF op.ok THEN {} ELSE {m}
                        ELSE IF op.ok /\ of = {<<op.id, op.v>>} THEN {m} ELSE {}
    [] op.op = "drain" -> IF {x[2] : x \in m} = {op.all[i] : i \in 1..Len(op.all)} /\ Len(op.all) = Cardinality(m)
                          THEN {{}} ELSE {}
=============================================================================
