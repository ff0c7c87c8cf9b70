-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Recorded histories of a shared object and whether they are explained by *)
(* some order of its operations. An event of a history is                  *)
(*   [e |-> "call", p |-> process, op |-> operation with its result]       *)
(*   [e |-> "ret",  p |-> process]                                         *)
(*   [e |-> "do",   op |-> operation with its result]   (nothing overlaps) *)
(* Next(st, op) is the set of states in which the object can be after op   *)
(* in state st had the result that op says; none if that cannot be.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Start, After(_, _), Histories
VARIABLES t, l, st, pend
lvars == <<t, l, st, pend>>

H == Histories[t].ev
Here == H[l]

Init == /\ t \in 1..Len(Histories)
        /\ l = 1 /\ st = Start /\ pend = {}

Done == l > Len(H)
Step == l' = l + 1 /\ UNCHANGED t

Call == /\ ~Done /\ Here.e = "call" /\ Step
        /\ pend' = pend \cup {[p |-> Here.p, op |-> Here.op]} /\ UNCHANGED st
Do   == /\ ~Done /\ Here.e = "do" /\ Step /\ UNCHANGED pend
        /\ \E s \in After(st, Here.op) : st' = s
\* An operation takes effect between its call and its return; looked for
\* only when a return is next.
Effect == /\ ~Done /\ Here.e = "ret" /\ UNCHANGED <<t, l>>
          /\ \E x \in pend : /\ pend' = pend \ {x}
                             /\ \E s \in After(st, x.op) : st' = s
Ret  == /\ ~Done /\ Here.e = "ret" /\ Step /\ UNCHANGED <<st, pend>>
        /\ \A x \in pend : x.p # Here.p

Told == (l' = Len(H) + 1) => PrintT("@A" \o ToJson([id |-> Histories[t].id]))
Next == (Call \/ Do \/ Effect \/ Ret) /\ Told
Spec == Init /\ [][Next]_lvars
=============================================================================
