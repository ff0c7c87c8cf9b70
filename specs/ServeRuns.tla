----------------------------- MODULE ServeRuns -----------------------------
(***************************************************************************)
(* What must be true once a server that was used by several goroutines is  *)
(* closed and nothing moves any more. A record r has                       *)
(*   listened, lclosed   how often Listen returned, the listener closed    *)
(*   told, calls, errs   how often the acceptor was given a connection, the*)
(*          requests it made, and how many of them failed                  *)
(*   cons   of each connection: taken (the listener gave it out), closed,  *)
(*          oks (answers that arrived), answers (the peer wrote), subs     *)
(*          (producers serving it), cancels and comps (how those ended     *)
(*          first), twice (producers that were cancelled again)            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
RECURSIVE Oks(_, _)
Oks(r, k) == IF k = 0 THEN 0 ELSE r.cons[k].oks + Oks(r, k - 1)
RunOk(r) == /\ r.listened = 1 /\ r.lclosed = 1
            /\ r.told <= Cardinality({i \in DOMAIN r.cons : r.cons[i].taken})
            /\ r.calls = r.errs + Oks(r, Len(r.cons))
            /\ \A i \in DOMAIN r.cons :
                 LET c == r.cons[i]
                 IN  /\ c.closed = (IF c.taken THEN 1 ELSE 0)
                     /\ c.oks <= c.answers
                     /\ c.subs = c.cancels + c.comps
                     /\ c.twice = 0
=============================================================================
