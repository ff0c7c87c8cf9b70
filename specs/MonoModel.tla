----------------------------- MODULE MonoModel -----------------------------
EXTENDS Mono, TLC, FiniteSets

CONSTANTS Kinds, Maps, MaxNotes, Waits, Settles, Blocks
VARIABLES s, act
vars == <<s, act>>
A(a) == [a |-> a, how |-> "", script |-> <<>>]

Init == /\ \E k \in Kinds, m \in Maps : s = Fresh(k, m)
        /\ act = A("")
Do(a) == act' = a /\ s' = After(s, a)

Scripts == IF s.kind = "create" /\ s.up = "no" /\ s.settled = 0
           THEN {<<>>, <<"success">>, <<"error">>, <<"success", "error">>, <<"error", "success">>, <<"success", "success">>} ELSE {<<>>}
Again == s.kind = "processor" /\ Ended(s)     \* a processor tells its outcome again
Next == \/ /\ Const(s) \/ s.up = "no" \/ Again
           /\ \E q \in Scripts : Do([A("subscribe") EXCEPT !.script = q])
        \/ \E q \in Scripts : Do([A("async") EXCEPT !.script = q])
        \/ /\ Blocks /\ s.waits < Waits
           /\ \E q \in Scripts : Do([A("block") EXCEPT !.script = q])
        \/ /\ s.notes < MaxNotes /\ Do(A("notify"))
        \/ /\ Const(s) \/ Ended(s)
           /\ Do(A("get"))
        \/ /\ ~Const(s) /\ s.settled < Settles
           /\ \E h \in {"success", "error"} : Do([A("settle") EXCEPT !.how = h])
Spec == Init /\ [][Next]_vars
View == [s EXCEPT !.out = <<>>]

o == s'.out
Is(x, n) == \E i \in DOMAIN x : x[i][1] = n
\* Everything that is told about the outcome is the one outcome.
Agree == [][ ~Const(s) => \A i \in DOMAIN o :
                /\ o[i][1] \in {"success", "error"} => o[i] = Told(s', s'.end)
                /\ o[i][1] \in {"blocked", "got"} => Tail(o[i]) = Told(s', s'.end)
                /\ o[i][1] \in {"finally", "note"} => o[i][Len(o[i])] = Sig(s', s'.end) ]_vars
\* It never changes, and nobody waits on after it.
Kept == [][ Ended(s) => s'.end = s.end ]_vars
AllTold == Ended(s) => s.waits = 0 /\ s.told = s.notes
\* Neither blocking nor awaiting runs what has been run.
RunOnce == [][ Is(o, "run") => s.up = "no" \/ act'.a = "subscribe" ]_vars
First == [][ s.up # "no" /\ ~Ended(s) /\ act'.a = "settle" => s'.end = [how |-> act'.how, k |-> s'.settled] ]_vars
=============================================================================
