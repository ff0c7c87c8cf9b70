-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* One stream or channel between two ends of a connection: the requester   *)
(* and the responder of Engine.tla put together, with the frames that are  *)
(* under way between them. The ends act at any moment, in particular while *)
(* frames that contradict what they do are on their way.                   *)
(***************************************************************************)
EXTENDS LinkRuns, TLC

CONSTANTS
  Channel,   \* TRUE for a request channel, FALSE for a request stream
  Items,     \* how many items each source has
  Demand,    \* how much each reader asks for
  Closes     \* the connection can be closed

VARIABLES
  r,     \* requester: made, open, gone; which directions are open
  s,     \* responder: none, wait (for its handler), open, gone; directions, demand that waits
  toS, toR,
  run,   \* what happens is recorded as in LinkRuns
  down   \* ends that know that the connection is closed

vars == <<r, s, toS, toR, run, down>>

Init ==
  /\ r = [ph |-> "made", out |-> TRUE, inn |-> Channel]
  /\ s = [ph |-> "none", out |-> TRUE, inn |-> Channel, cr |-> 0, pend |-> ""]
  /\ toS = <<>> /\ toR = <<>> /\ down = {}
  /\ run = [kind |-> IF Channel THEN "RC" ELSE "RS", closed |-> FALSE, asked |-> FALSE, calls |-> 0,
            out |-> [Flow0 EXCEPT !.sub = TRUE], inn |-> Flow0]

Gone(x) == IF ~x.out /\ ~x.inn /\ x.ph \in {"open", "wait"} THEN [x EXCEPT !.ph = "gone"] ELSE x

SendS(m) == toS' = IF "r" \in down THEN toS ELSE toS \o m
SendR(m) == toR' = IF "s" \in down THEN toR ELSE toR \o m
OpenOut == run.out.ends = <<>>
End(f, e) == IF f.ends = <<>> /\ f.sub THEN [f EXCEPT !.ends = <<e>>,
  !.fins = <<IF e = "COMP" THEN "COMPLETE" ELSE IF e = "CANCEL" THEN "CANCEL" ELSE "ERROR">>] ELSE f
Stop(f) == IF f.live /\ f.end = "" THEN [f EXCEPT !.stopped = @ + 1] ELSE f

----------------------------------------------------------------------------
(* The user at the requesting end *)

Ask(n) ==
  /\ OpenOut /\ run.out.want + n <= Demand
  /\ IF "r" \in down /\ r.ph = "made"
     THEN /\ r' = [r EXCEPT !.ph = "gone", !.out = FALSE, !.inn = FALSE]
          /\ run' = [run EXCEPT !.out = End([@ EXCEPT !.want = @ + n], "CLOSED"), !.asked = TRUE]
          /\ UNCHANGED toS
     ELSE /\ r' = [r EXCEPT !.ph = "open"]
          /\ run' = [run EXCEPT !.out.want = @ + n, !.asked = TRUE, !.inn.live = Channel]
          /\ SendS(<< <<IF r.ph = "made" THEN "REQ" ELSE "REQN", n>> >>)
  /\ UNCHANGED <<s, toR, down>>

Cancel ==
  /\ OpenOut
  /\ r' = IF r.ph = "made" THEN [r EXCEPT !.ph = "gone"] ELSE Gone([r EXCEPT !.out = FALSE])
  /\ run' = [run EXCEPT !.out = [End(@, "CANCEL") EXCEPT !.cancel = TRUE]]
  /\ IF r.ph = "open" THEN SendS(<< <<"CANCEL", 0>> >>) ELSE UNCHANGED toS
  /\ UNCHANGED <<s, toR, down>>

InEmit ==
  /\ run.inn.live /\ run.inn.end = "" /\ run.inn.sent < Items /\ run.inn.sent < run.inn.demand
  /\ run' = [run EXCEPT !.inn.sent = @ + 1]
  /\ IF r.inn THEN SendS(<< <<"NEXT", run.inn.sent + 1>> >>) ELSE UNCHANGED toS
  /\ UNCHANGED <<r, s, toR, down>>

InEnd(e) ==
  /\ run.inn.live /\ run.inn.end = ""
  /\ run' = [run EXCEPT !.inn.end = e, !.inn.stopped = IF e = "LARGE" /\ r.inn THEN @ + 1 ELSE @]
  /\ e = "LARGE" => r.inn /\ run.inn.sent < run.inn.demand
  /\ IF r.inn THEN SendS(<< <<e, 0>> >>) ELSE UNCHANGED toS
  /\ r' = Gone([r EXCEPT !.inn = FALSE])
  /\ UNCHANGED <<s, toR, down>>

\* What arrives at the requester.
RecvR ==
  /\ toR # <<>> /\ toR' = Tail(toR)
  /\ LET m == Head(toR) IN
     IF r.ph # "open" \/ "r" \in down THEN UNCHANGED <<r, run>>
     ELSE CASE m[1] = "NEXT" ->
                 /\ run' = IF r.out THEN [run EXCEPT !.out.got = Append(@, m[2])] ELSE run
                 /\ UNCHANGED r
            [] m[1] = "COMP" ->
                 /\ run' = IF r.out THEN [run EXCEPT !.out = End(@, "COMP")] ELSE run
                 /\ r' = Gone([r EXCEPT !.out = FALSE])
            [] m[1] \in {"ERR", "LARGE"} ->
                 /\ run' = [run EXCEPT !.out = IF r.out THEN End(@, m[1]) ELSE @, !.inn = IF r.inn THEN Stop(@) ELSE @]
                 /\ r' = Gone([r EXCEPT !.out = FALSE, !.inn = FALSE])
            [] m[1] = "REQN" ->
                 /\ run' = IF r.inn THEN [run EXCEPT !.inn.demand = @ + m[2]] ELSE run
                 /\ UNCHANGED r
            [] m[1] = "CANCEL" ->
                 /\ run' = IF r.inn THEN [run EXCEPT !.inn = Stop(@)] ELSE run
                 /\ r' = Gone([r EXCEPT !.inn = FALSE])
  /\ UNCHANGED <<s, toS, down>>

----------------------------------------------------------------------------
(* The responding end *)

RecvS ==
  /\ toS # <<>> /\ toS' = Tail(toS)
  /\ LET m == Head(toS) IN
     IF "s" \in down THEN UNCHANGED <<s, run>>
     ELSE IF m[1] = "REQ"
     THEN /\ s' = [s EXCEPT !.ph = "wait", !.cr = m[2]]
          /\ run' = [run EXCEPT !.calls = @ + 1]
     ELSE IF s.ph = "gone" THEN UNCHANGED <<s, run>>
     ELSE CASE m[1] = "REQN" ->
                 /\ s' = [s EXCEPT !.cr = IF run.out.live THEN @ ELSE @ + m[2]]
                 /\ run' = IF run.out.live /\ s.out THEN [run EXCEPT !.out.demand = @ + m[2]] ELSE run
            [] m[1] = "CANCEL" ->
                 /\ s' = Gone([s EXCEPT !.out = FALSE])
                 /\ run' = IF s.out THEN [run EXCEPT !.out = Stop(@)] ELSE run
            [] m[1] = "NEXT" ->
                 /\ run' = IF s.inn THEN [run EXCEPT !.inn.got = Append(@, m[2])] ELSE run
                 /\ UNCHANGED s
            [] m[1] \in {"COMP", "ERR", "LARGE"} ->
                 /\ run' = IF s.inn THEN [run EXCEPT !.inn = End(@, m[1])] ELSE run
                 /\ s' = Gone([s EXCEPT !.inn = FALSE, !.pend = IF s.inn /\ ~run.inn.sub THEN m[1] ELSE @])
  /\ UNCHANGED <<r, toR, down>>

\* The handler returns its response.
Return ==
  /\ run.calls = 1 /\ ~run.out.live /\ s.out
  /\ s' = [s EXCEPT !.ph = "open", !.cr = 0]
  /\ run' = [run EXCEPT !.out.live = TRUE, !.out.demand = s.cr]
  /\ UNCHANGED <<r, toS, toR, down>>

Emit ==
  /\ run.out.live /\ run.out.end = "" /\ run.out.sent < Items /\ run.out.sent < run.out.demand
  /\ run' = [run EXCEPT !.out.sent = @ + 1]
  /\ IF s.out THEN SendR(<< <<"NEXT", run.out.sent + 1>> >>) ELSE UNCHANGED toR
  /\ UNCHANGED <<r, s, toS, down>>

EmitEnd(e) ==
  /\ run.out.live /\ run.out.end = ""
  /\ e = "LARGE" => s.out /\ run.out.sent < run.out.demand
  /\ LET o == [run EXCEPT !.out.end = e, !.out.stopped = IF e = "LARGE" /\ s.out THEN @ + 1 ELSE @] IN
     IF ~s.out THEN run' = o /\ UNCHANGED <<s, toR>>
     ELSE IF e = "COMP"
     THEN run' = o /\ s' = Gone([s EXCEPT !.out = FALSE]) /\ SendR(<< <<e, 0>> >>)
     ELSE /\ run' = IF s.inn THEN [o EXCEPT !.inn = End(@, "OTHER")] ELSE o
          /\ s' = Gone([s EXCEPT !.out = FALSE, !.inn = FALSE, !.pend = IF s.inn /\ ~run.inn.sub THEN "OTHER" ELSE @])
          /\ SendR(<< <<e, 0>> >>)
  /\ UNCHANGED <<r, toS, down>>

Read ==
  /\ Channel /\ run.calls = 1 /\ ~run.inn.sub
  /\ LET f == [run.inn EXCEPT !.sub = TRUE] IN
     run' = [run EXCEPT !.inn = IF s.pend # "" THEN End(f, s.pend) ELSE f]
  /\ UNCHANGED <<r, s, toS, toR, down>>

ReadAsk(n) ==
  /\ run.inn.sub /\ run.inn.ends = <<>> /\ run.inn.want + n <= Demand
  /\ run' = [run EXCEPT !.inn.want = @ + n]
  /\ SendR(<< <<"REQN", n>> >>)
  /\ UNCHANGED <<r, s, toS, down>>

ReadCancel ==
  /\ run.inn.sub /\ run.inn.ends = <<>>
  /\ run' = [run EXCEPT !.inn = [End(@, "CANCEL") EXCEPT !.cancel = TRUE]]
  /\ s' = Gone([s EXCEPT !.inn = FALSE])
  /\ SendR(<< <<"CANCEL", 0>> >>)
  /\ UNCHANGED <<r, toS, down>>

----------------------------------------------------------------------------
(* One end closes the connection, the other notices. What is under way may *)
(* still arrive there.                                                     *)

CloseR ==
  /\ Closes /\ "r" \notin down
  /\ down' = down \cup {"r"}
  /\ run' = [run EXCEPT !.closed = TRUE,
                        !.out = IF r.ph = "open" /\ r.out THEN End(@, "CLOSED") ELSE @,
                        !.inn = IF r.ph = "open" /\ r.inn THEN Stop(@) ELSE @]
  /\ r' = IF r.ph = "open" THEN [r EXCEPT !.ph = "gone", !.out = FALSE, !.inn = FALSE] ELSE r
  /\ UNCHANGED <<s, toS, toR>>

CloseS ==
  /\ Closes /\ "s" \notin down
  /\ down' = down \cup {"s"}
  /\ LET reg == s.ph \in {"wait", "open"} IN
     /\ run' = [run EXCEPT !.closed = TRUE,
                           !.out = IF reg /\ s.out THEN Stop(@) ELSE @,
                           !.inn = IF reg /\ s.inn THEN End(@, "CLOSED") ELSE @]
     /\ s' = IF reg THEN [s EXCEPT !.ph = "gone", !.out = FALSE, !.inn = FALSE,
                                   !.pend = IF s.inn /\ ~run.inn.sub THEN "CLOSED" ELSE @]
             ELSE s
  /\ UNCHANGED <<r, toS, toR>>

Next ==
  \/ \E n \in 1..2 : Ask(n) \/ ReadAsk(n)
  \/ Cancel \/ InEmit \/ \E e \in {"COMP", "ERR", "LARGE"} : InEnd(e) \/ EmitEnd(e)
  \/ RecvR \/ RecvS \/ Return \/ Emit \/ Read \/ ReadCancel
  \/ CloseR \/ CloseS

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------

\* Nothing moves any more unless a user does something.
Quiet ==
  /\ toS = <<>> /\ toR = <<>>
  /\ ~(run.calls = 1 /\ s.ph = "wait" /\ s.out)
  /\ down \in {{}, {"r", "s"}}

\* What the two ends did can be recorded as a run that is allowed.
Allowed == Quiet => RunOk(run)

\* What can never be, at any moment.
Always ==
  /\ InOrder(run.out) /\ InOrder(run.inn)
  /\ Ended(run.out, run.closed, FALSE)
  /\ run.out.demand <= run.out.want /\ run.inn.demand <= run.inn.want
  /\ run.calls <= 1

\* Both ends forget a stream: none keeps it when the other has.
Agree == Quiet /\ down = {} /\ r.ph # "made" =>
  /\ r.ph = "gone" <=> s.ph \in {"gone", "none"}
  /\ r.out = s.out /\ r.inn = s.inn
=============================================================================
