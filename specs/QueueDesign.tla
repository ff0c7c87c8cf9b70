---------------------------- MODULE QueueDesign ----------------------------
EXTENDS Queue
(* The design of the implementation: one slot in front of a backlog. Every *)
(* behaviour of it is one of the above, and a consumer that loads after    *)
(* every item gets everything and then the end.                            *)
CONSTANT Puts
VARIABLES slot, back, disposed, closed, abs, put, gone, cons
dvars == <<slot, back, disposed, closed, abs, put, gone, cons>>

DInit == /\ slot = <<>> /\ back = <<>> /\ disposed = FALSE /\ closed = FALSE
         /\ abs = QStart /\ put = 0 /\ gone = <<>> /\ cons = "take"
\* The abstract queue follows; it must always be able to.
Follow(op) == abs' = IF QAfter(abs, op) = {} THEN [QStart EXCEPT !.q = <<0>>] ELSE CHOOSE x \in QAfter(abs, op) : TRUE
DPut == /\ put < Puts /\ put' = put + 1
        /\ IF disposed THEN UNCHANGED <<slot, back>>
           ELSE IF back = <<>> /\ slot = <<>> THEN slot' = <<put'>> /\ UNCHANGED back
           ELSE back' = Append(back, put') /\ UNCHANGED slot
        /\ Follow([op |-> "put", v |-> put', ok |-> ~disposed])
        /\ UNCHANGED <<disposed, closed, gone, cons>>
DDispose == /\ ~disposed /\ disposed' = TRUE /\ closed' = (closed \/ back = <<>>)
            /\ Follow([op |-> "dispose"]) /\ UNCHANGED <<slot, back, put, gone, cons>>
DTake == /\ cons = "take"
         /\ \/ /\ slot # <<>> /\ gone' = Append(gone, Head(slot)) /\ slot' = <<>> /\ cons' = "load"
               /\ Follow([op |-> "take", got |-> "item", v |-> Head(slot)])
            \/ /\ slot = <<>> /\ closed /\ cons' = "end" /\ UNCHANGED <<gone, slot>>
               /\ Follow([op |-> "take", got |-> "end"])
         /\ UNCHANGED <<back, disposed, closed, put>>
DPeek == /\ slot = <<>> /\ ~closed /\ Follow([op |-> "take", got |-> "none"])
         /\ UNCHANGED <<slot, back, disposed, closed, put, gone, cons>>
DLoad == /\ cons = "load" /\ cons' = "take"
         /\ IF back # <<>>
            THEN IF slot = <<>> THEN slot' = <<Head(back)>> /\ back' = Tail(back) /\ UNCHANGED closed
                 ELSE UNCHANGED <<slot, back, closed>>
            ELSE closed' = (closed \/ disposed) /\ UNCHANGED <<slot, back>>
         /\ Follow([op |-> "load"]) /\ UNCHANGED <<disposed, put, gone>>
DNext == DPut \/ DDispose \/ DTake \/ DPeek \/ DLoad
DSpec == DInit /\ [][DNext]_dvars /\ WF_dvars(DTake) /\ WF_dvars(DLoad) /\ WF_dvars(DDispose)

Fifo == \A i \in 1..Len(gone) : i > 1 => gone[i] > gone[i-1]
Explained == abs.q # <<0>>
AllComes == abs.q = slot \o back
Ends == <>(cons = "end")
EndIsLast == cons = "end" => slot = <<>> /\ back = <<>>
=============================================================================
