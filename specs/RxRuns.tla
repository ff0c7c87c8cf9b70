------------------------------- MODULE RxRuns -------------------------------
(***************************************************************************)
(* Recordings of fluxes and monos that several goroutines use at once, and *)
(* whether they are allowed. An event is [e, op, k]:                       *)
(*   call/ret  an operation op begins and is over: item, complete, error,  *)
(*             cancel, notify, request, block, success; k tells apart the  *)
(*             items, notifications, outcomes and callers                  *)
(*   next, complete, error, success, finally, note, srccancel, srcreq,     *)
(*   blocked, run   what was observed; op is then the signal or how        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Idx(r) == DOMAIN r.ev
Of(r, e) == {i \in Idx(r) : r.ev[i].e = e}
Call(r, op, k) == {i \in Of(r, "call") : r.ev[i].op = op /\ r.ev[i].k = k}
RetOf(r, i) == CHOOSE j \in Of(r, "ret") : r.ev[j].op = r.ev[i].op /\ r.ev[j].k = r.ev[i].k
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Total(_, _)
Total(r, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN r.ev[i].k + Total(r, S \ {i})

EndOps == {"complete", "error", "cancel", "success"}
Ends(r) == {i \in Of(r, "call") : r.ev[i].op \in EndOps}
\* i is a possible winner: it was not called after another end was over.
CanWin(r, i) == \A j \in Ends(r) : ~(RetOf(r, j) < i)
SigOf(op) == IF op = "success" THEN "complete" ELSE op
Signals(r, S) == \A i \in Of(r, "note") : r.ev[i].op = S
NotesOnce(r) == /\ \A i \in Of(r, "call") : r.ev[i].op = "notify" =>
                     /\ Cardinality({j \in Of(r, "note") : r.ev[j].k = r.ev[i].k}) = 1
                     /\ \A j \in Of(r, "note") : r.ev[j].k = r.ev[i].k => j > i
                \* Registered after the end: told at once.
                /\ \A i \in Of(r, "call") : r.ev[i].op = "notify" /\ (\A f \in Of(r, "finally") : f < i) /\ r.finally /\ (\A x \in Ends(r) : RetOf(r, x) < i) =>
                     \A j \in Of(r, "note") : r.ev[j].k = r.ev[i].k => j < RetOf(r, i)

FluxOk(r) ==
    LET fin == Of(r, "finally")
        f == Min(fin)
        sig == r.ev[f].op
        over == {RetOf(r, i) : i \in Ends(r)}
        reqs == {i \in Of(r, "call") : r.ev[i].op = "request"}
    IN  /\ Cardinality(fin) = 1
        /\ Cardinality(Of(r, "complete")) = (IF sig = "complete" THEN 1 ELSE 0)
        /\ Cardinality(Of(r, "error")) = (IF sig = "error" THEN 1 ELSE 0)
        /\ Cardinality(Of(r, "srccancel")) = (IF sig = "cancel" THEN 1 ELSE 0)
        /\ \A i \in Of(r, "complete") \cup Of(r, "error") \cup Of(r, "srccancel") : i < f
        /\ \E i \in Ends(r) : i < f /\ r.ev[i].op = sig /\ CanWin(r, i)
        \* the error is the one of an error that could win
        /\ \A e \in Of(r, "error") : \E i \in Ends(r) : r.ev[i].op = "error" /\ r.ev[i].k = r.ev[e].k /\ CanWin(r, i)
        /\ NotesOnce(r) /\ Signals(r, sig)
        \* items: each one at most once, in order, none lost before the end, none begun after it
        /\ \A i, j \in Of(r, "next") : i < j => r.ev[i].k < r.ev[j].k
        /\ \A i \in Of(r, "next") : /\ Call(r, "item", r.ev[i].k) # {}
                                    /\ \A c \in Call(r, "item", r.ev[i].k) : c < i /\ (i < f \/ c < f) /\ \A x \in over : ~(x < c)
        /\ \A c \in Of(r, "call") : r.ev[c].op = "item" /\ (\A x \in Ends(r) : RetOf(r, c) < x) =>
               \E i \in Of(r, "next") : r.ev[i].k = r.ev[c].k
        \* demand
        /\ Total(r, Of(r, "srcreq")) <= Total(r, reqs)
        /\ (r.calm => Total(r, Of(r, "srcreq")) = Total(r, reqs))
        /\ \A b \in Of(r, "blocked") : (r.ev[b].op = "error") = (sig = "error")

MonoOk(r) ==
    LET told == Of(r, "success") \cup Of(r, "error") \cup Of(r, "blocked") \cup Of(r, "got")
        how(i) == IF r.ev[i].e \in {"blocked", "got"} THEN r.ev[i].op ELSE r.ev[i].e
        blocks == {i \in Of(r, "call") : r.ev[i].op = "block"}
    IN  /\ told # {}
        /\ \A i, j \in told : how(i) = how(j) /\ r.ev[i].k = r.ev[j].k
        /\ \A i \in told : \E c \in Ends(r) : c < i /\ r.ev[c].op = how(i) /\ r.ev[c].k = r.ev[i].k /\ CanWin(r, c)
        /\ (r.finally => /\ Cardinality(Of(r, "finally")) = 1
                         /\ Cardinality(Of(r, "success")) + Cardinality(Of(r, "error")) = 1
                         /\ \A f \in Of(r, "finally"), i \in told : r.ev[f].op = SigOf(how(i)))
        /\ Cardinality(Of(r, "blocked")) = Cardinality(blocks)
        /\ NotesOnce(r) /\ \A i \in told : Signals(r, SigOf(how(i)))
        /\ Cardinality(Of(r, "run")) <= 1

RunOk(r) == IF r.what = "flux" THEN FluxOk(r) ELSE MonoOk(r)
=============================================================================
