------------------------------- MODULE Serve -------------------------------
(***************************************************************************)
(* A server and the connections it accepts, or a client with its one       *)
(* connection: what a listener, the peers, the user of the connections and *)
(* an observer of references can see. An action is an input, `out` is what *)
(* it leads to:                                                            *)
(*   notify v    the server said whether it listens                        *)
(*   listened    Listen (of a client: Start) returned                      *)
(*   lclosed     the listener was closed                                   *)
(*   accepted c  the acceptor was given connection c                       *)
(*   closed c    connection c was closed by this side                      *)
(*   w c x       a frame was sent on c                                     *)
(*   u c x       the outcome of the request made on c                      *)
(*   p c x       what the producer serving the peer of c was told          *)
(*   held S      ended connections that something still refers to          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Side, Conns, Max
VARIABLES s, act, out
vars == <<s, act, out>>

Con == [st |-> "none", kept |-> TRUE, call |-> FALSE, push |-> FALSE, n |-> 0]
Fresh == [srv |-> IF Side = "client" THEN "on" ELSE "new", shut |-> FALSE,
          c |-> [c \in Conns |-> IF Side = "client" THEN [Con EXCEPT !.st = "open"] ELSE Con]]
Init == s = Fresh /\ act = [a |-> ""] /\ out = <<>>

Open(c) == s.c[c].st = "open"
\* What the end of a connection leads to.
Ends(c) == <<<<"closed", c>>>> \o (IF s.c[c].call THEN <<<<"u", c, "ERR">>>> ELSE <<>>)
                              \o (IF s.c[c].push THEN <<<<"p", c, "CANCEL">>>> ELSE <<>>)
Gone(c) == [s.c[c] EXCEPT !.st = "gone", !.call = FALSE, !.push = FALSE]
RECURSIVE All(_)
All(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN Ends(c) \o All(S \ {c})
Opens == {c \in Conns : Open(c)}
Stopped == IF Side = "client" THEN <<<<"listened">>>> ELSE <<>>

Do(a, t, o) == act' = a /\ s' = t /\ out' = o
Put(c, r) == [s EXCEPT !.c[c] = r]

Listen == /\ Side = "server" /\ s.srv = "new"
          /\ \E ok \in BOOLEAN :
               Do([a |-> "Listen", ok |-> ok],
                  IF ok THEN [s EXCEPT !.srv = IF s.shut THEN "over" ELSE "on"] ELSE s,
                  IF ~ok THEN <<<<"notify", FALSE>>, <<"listened">>>>
                  ELSE IF s.shut THEN <<<<"notify", FALSE>>, <<"lclosed">>, <<"listened">>>>
                  ELSE <<<<"notify", TRUE>>>>)

Connect(c) == /\ Side = "server" /\ s.srv = "on" /\ s.c[c].st = "none"
              /\ Do([a |-> "Connect", c |-> c], Put(c, [Con EXCEPT !.st = "open"]), <<<<"accepted", c>>>>)

\* The server ends, by a call of Close, its context, or a listener that fails.
\* late: the connection the listener still gives when it is being closed.
Over(late) == [s EXCEPT !.srv = "over", !.shut = TRUE,
                        !.c = [c \in Conns |-> IF Open(c) THEN Gone(c) ELSE IF c = late THEN [Con EXCEPT !.st = "gone", !.kept = FALSE] ELSE s.c[c]]]
Shut == /\ Side = "server"
        /\ \E how \in {"close", "ctx", "fail"}, late \in {0} \cup {c \in Conns : s.c[c].st = "none"} :
             /\ how = "fail" => late = 0
             /\ s.srv # "on" => how = "close" /\ late = 0
             /\ Do([a |-> "Shut", how |-> how, c |-> late],
                   IF s.srv = "on" THEN Over(late) ELSE [s EXCEPT !.shut = TRUE],
                   IF s.srv = "on" THEN <<<<"lclosed">>, <<"listened">>>> \o All(Opens) \o (IF late = 0 THEN <<>> ELSE <<<<"closed", late>>>>) ELSE <<>>)

\* A connection ends.
Ways == {"eof", "reset", "cut", "junk"} \cup (IF Side = "client" THEN {"close", "twice", "ctx"} ELSE {})
End(c) == /\ Open(c)
          /\ \E how \in Ways : Do([a |-> "End", c |-> c, how |-> how], Put(c, Gone(c)), Ends(c) \o Stopped)
\* The last thing the peer sends is the answer.
LastWords(c) == /\ Open(c) /\ s.c[c].call
                /\ Do([a |-> "LastWords", c |-> c], Put(c, Gone(c)),
                      <<<<"u", c, "OK">>, <<"closed", c>>>> \o (IF s.c[c].push THEN <<<<"p", c, "CANCEL">>>> ELSE <<>>) \o Stopped)

Call(c) == /\ s.c[c].st # "none" /\ s.c[c].kept /\ ~s.c[c].call /\ s.c[c].n < Max
           /\ Do([a |-> "Call", c |-> c], Put(c, [s.c[c] EXCEPT !.call = Open(c), !.n = @ + 1]),
                 IF Open(c) THEN <<<<"w", c, "REQ">>>> ELSE <<<<"u", c, "ERR">>>>)
Answer(c) == /\ Open(c) /\ s.c[c].call
             /\ \E how \in {"OK", "ERR"} : Do([a |-> "Answer", c |-> c, how |-> how], Put(c, [s.c[c] EXCEPT !.call = FALSE]), <<<<"u", c, how>>>>)
Push(c) == /\ Open(c) /\ ~s.c[c].push /\ s.c[c].n < Max
           /\ Do([a |-> "Push", c |-> c], Put(c, [s.c[c] EXCEPT !.push = TRUE, !.n = @ + 1]), <<<<"p", c, "SUB">>>>)
Emit(c) == /\ Open(c) /\ s.c[c].push
           /\ \E what \in {"NEXT", "COMP"} :
                Do([a |-> "Emit", c |-> c, how |-> what], Put(c, [s.c[c] EXCEPT !.push = what = "NEXT"]), <<<<"w", c, what>>>>)
Recall(c) == /\ Open(c) /\ s.c[c].push
             /\ Do([a |-> "Recall", c |-> c], Put(c, [s.c[c] EXCEPT !.push = FALSE]), <<<<"p", c, "CANCEL">>>>)

\* The user of a connection lets go of it.
Forget(c) == /\ Side = "server" /\ s.c[c].st # "none" /\ s.c[c].kept
             /\ Do([a |-> "Forget", c |-> c], Put(c, [s.c[c] EXCEPT !.kept = FALSE]), <<>>)
Audit == /\ Side = "server" /\ s.srv # "new" /\ \E c \in Conns : s.c[c].st = "gone" /\ ~s.c[c].kept
         /\ Do([a |-> "Audit"], s, <<<<"held">>>>)

Next == Listen \/ Shut \/ Audit \/ \E c \in Conns : Connect(c) \/ End(c) \/ LastWords(c) \/ Call(c) \/ Answer(c) \/ Push(c) \/ Emit(c) \/ Recall(c) \/ Forget(c)
Spec == Init /\ [][Next]_vars
View == s

Times(x) == Cardinality({i \in DOMAIN out' : out'[i] = x})
\* An ended server has no open connection and no ended connection owes anything.
Settled == /\ s.srv = "over" => Opens = {}
           /\ \A c \in Conns : s.c[c].st # "open" => ~s.c[c].call /\ ~s.c[c].push
\* A connection is closed exactly when it ends, its requests with it, and no other connection notices.
OneEnd == [][ \A c \in Conns : /\ Times(<<"closed", c>>) = (IF s.c[c].st # "gone" /\ s'.c[c].st = "gone" THEN 1 ELSE 0)
                               /\ Times(<<"u", c, "ERR">>) + Times(<<"u", c, "OK">>) =
                                     (IF (s.c[c].call /\ ~s'.c[c].call) \/ (act'.a = "Call" /\ act'.c = c /\ ~s'.c[c].call) THEN 1 ELSE 0)
                               /\ s.c[c].push /\ s'.c[c].st = "gone" => Times(<<"p", c, "CANCEL">>) = 1 ]_vars
Apart == [][ act'.a \notin {"Shut", "Listen", "Audit"} => \A i \in DOMAIN out' : Len(out'[i]) > 1 => out'[i][2] = act'.c ]_vars
LOnce == [][ Side = "client" \/ Times(<<"lclosed">>) = (IF s.srv # "over" /\ s'.srv = "over" THEN 1 ELSE 0) ]_vars
=============================================================================
