----------------------------- MODULE UuidDesign -----------------------------
(***************************************************************************)
(* How identifiers are drawn: a pool of random blocks that is refilled     *)
(* under a lock from a source that may fail part of the way, and a clock   *)
(* sequence that moves on whenever the clock does not.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, Draws, PoolSize, Times, Seqs

VARIABLES lock, pc, pool, pos, next, got, draws,  \* the pool
          last, seq, pairs, bumps, gets           \* the clock

vars == <<lock, pc, pool, pos, next, got, draws, last, seq, pairs, bumps, gets>>
Free == 0

Init == /\ lock = Free /\ pc = [p \in Procs |-> "out"] /\ pool = [i \in 1..PoolSize |-> 0] /\ pos = PoolSize
        /\ next = 1 /\ got = {} /\ draws = 0
        /\ last = -1 /\ seq \in 0..(Seqs - 1) /\ pairs = {} /\ bumps = 0 /\ gets = 0

Clk == <<last, seq, pairs, bumps, gets>>
Rnd == <<lock, pc, pool, pos, next, got, draws>>

Enter(p) == /\ pc[p] = "out" /\ lock = Free /\ draws < Draws
            /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "in"] /\ draws' = draws + 1
            /\ UNCHANGED <<pool, pos, next, got>> /\ UNCHANGED Clk

\* The source delivers k blocks; fewer than the pool holds is a failure, and what was there before may be overwritten.
Refill(p) == /\ pc[p] = "in" /\ pos = PoolSize
             /\ \E k \in 0..PoolSize :
                  /\ pool' = [i \in 1..PoolSize |-> IF i <= k THEN next + i - 1 ELSE pool[i]]
                  /\ next' = next + k
                  /\ IF k = PoolSize THEN pos' = 0 /\ UNCHANGED <<lock, pc>>
                     ELSE UNCHANGED pos /\ lock' = Free /\ pc' = [pc EXCEPT ![p] = "out"]
             /\ UNCHANGED <<got, draws>> /\ UNCHANGED Clk

Take(p) == /\ pc[p] = "in" /\ pos < PoolSize
           /\ got' = got \cup {<<draws, pool[pos + 1]>>} /\ pos' = pos + 1
           /\ lock' = Free /\ pc' = [pc EXCEPT ![p] = "out"]
           /\ UNCHANGED <<pool, next, draws>> /\ UNCHANGED Clk

\* Not at the same time as anything else.
Discard == /\ \A p \in Procs : pc[p] = "out"
           /\ pos' = PoolSize /\ UNCHANGED <<lock, pc, pool, next, got, draws>> /\ UNCHANGED Clk

\* The clock may stand, go on, or go back.
Get == /\ gets < Draws
       /\ \E now \in 0..(Times - 1) :
            LET s == IF now <= last THEN (seq + 1) % Seqs ELSE seq IN
            /\ seq' = s /\ last' = now /\ pairs' = pairs \cup {<<gets, now, s>>}
            /\ bumps' = bumps + (IF now <= last THEN 1 ELSE 0)
       /\ gets' = gets + 1 /\ UNCHANGED Rnd

Next == Discard \/ Get \/ \E p \in Procs : Enter(p) \/ Refill(p) \/ Take(p)
Spec == Init /\ [][Next]_vars

Fresh == \A a, b \in got : a[2] > 0 /\ a[2] < next /\ (a[2] = b[2] => a = b)
NoRepeat == bumps < Seqs => \A a, b \in pairs : (a[2] = b[2] /\ a[3] = b[3]) => a = b
=============================================================================
