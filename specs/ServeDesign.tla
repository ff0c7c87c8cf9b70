---------------------------- MODULE ServeDesign ----------------------------
(***************************************************************************)
(* The server's bookkeeping with every interleaving: the loop that accepts *)
(* connections, the life of each connection, and whoever closes the        *)
(* server. The record of connections `m` is taken over by the closer.      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Conns
VARIABLES done, lopen, m, loop, cur, con, closes, closer, todo
vars == <<done, lopen, m, loop, cur, con, closes, closer, todo>>

Init == /\ done = FALSE /\ lopen = TRUE /\ m = {} /\ loop = "accept" /\ cur = 0
        /\ con = [c \in Conns |-> "none"] /\ closes = [c \in Conns |-> 0]
        /\ closer = [k \in {"user", "loop"} |-> "idle"] /\ todo = [k \in {"user", "loop"} |-> {}]

\* A connection is closed once, whoever asks.
CloseCon(c) == closes' = [closes EXCEPT ![c] = IF @ = 0 THEN 1 ELSE @]

Accept(c) == /\ loop = "accept" /\ lopen /\ con[c] = "none"
             /\ con' = [con EXCEPT ![c] = "accepted"] /\ cur' = c /\ loop' = "put"
             /\ UNCHANGED <<done, lopen, m, closes, closer, todo>>
Fails == /\ loop = "accept" /\ ~lopen /\ loop' = "exit" /\ UNCHANGED <<done, lopen, m, cur, con, closes, closer, todo>>
PutIt == /\ loop = "put"
         /\ IF done THEN /\ CloseCon(cur) /\ con' = [con EXCEPT ![cur] = "over"] /\ loop' = "exit" /\ UNCHANGED m
            ELSE /\ m' = m \cup {cur} /\ con' = [con EXCEPT ![cur] = "run"] /\ loop' = "accept" /\ UNCHANGED closes
         /\ UNCHANGED <<done, lopen, cur, closer, todo>>
\* The peer goes away, or the connection was closed: the reader ends.
Ends(c) == /\ con[c] = "run" /\ con' = [con EXCEPT ![c] = "ending"] /\ CloseCon(c)
           /\ UNCHANGED <<done, lopen, m, loop, cur, closer, todo>>
Remove(c) == /\ con[c] = "ending" /\ con' = [con EXCEPT ![c] = "over"] /\ m' = m \ {c}
             /\ UNCHANGED <<done, lopen, loop, cur, closes, closer, todo>>

\* Close, called by the user and by the loop when it ends.
Begin(k) == /\ closer[k] = "idle" /\ (k = "loop" => loop = "exit")
            /\ IF done THEN closer' = [closer EXCEPT ![k] = "over"] /\ UNCHANGED <<done, m, todo>>
               ELSE /\ done' = TRUE /\ todo' = [todo EXCEPT ![k] = m] /\ m' = {} /\ closer' = [closer EXCEPT ![k] = "listener"]
            /\ UNCHANGED <<lopen, loop, cur, con, closes>>
Unlisten(k) == /\ closer[k] = "listener" /\ lopen' = FALSE /\ closer' = [closer EXCEPT ![k] = "conns"]
               /\ UNCHANGED <<done, m, loop, cur, con, closes, todo>>
CloseOne(k) == /\ closer[k] = "conns"
               /\ IF todo[k] = {} THEN closer' = [closer EXCEPT ![k] = "over"] /\ UNCHANGED <<closes, todo>>
                  ELSE \E c \in todo[k] : CloseCon(c) /\ todo' = [todo EXCEPT ![k] = @ \ {c}] /\ UNCHANGED closer
               /\ UNCHANGED <<done, lopen, m, loop, cur, con>>

Steps == \/ Fails \/ PutIt
         \/ \E k \in {"user", "loop"} : Unlisten(k) \/ CloseOne(k)
         \/ Begin("loop")
         \/ \E c \in Conns : Remove(c) \/ (closes[c] = 1 /\ Ends(c))
Next == Steps \/ Begin("user") \/ \E c \in Conns : Accept(c) \/ Ends(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

\* When the server is closed and nothing moves any more, everything is closed.
Quiet == done /\ ~ENABLED Steps
AllClosed == Quiet => ~lopen /\ loop = "exit" /\ \A c \in Conns : con[c] \in {"none", "over"} /\ (con[c] = "over" => closes[c] = 1)
\* Nothing that ended is kept.
NotHeld == \A c \in m : con[c] \in {"run", "ending"}
Stops == done ~> Quiet
=============================================================================
