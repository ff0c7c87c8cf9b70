------------------------------ MODULE LinkRuns ------------------------------
(***************************************************************************)
(* What a request between two ends of a connection may have led to, once   *)
(* nothing moves any more. A run records, for one request,                 *)
(*   kind    RR, FNF, RS, RC                                               *)
(*   closed  the connection was closed                                     *)
(*   asked   the request was made (streams: items were asked for)          *)
(*   calls   how often its handler was called                              *)
(*   out     the flow of the response (RR: of its single item)             *)
(*   inn     the flow of the input of a channel                            *)
(* and a flow, from a source at one end to a reader at the other,          *)
(*   live    the source was subscribed                                     *)
(*   demand  how many items it was asked for                               *)
(*   sent    how many items it emitted                                     *)
(*   end     how it ended by itself: "" (not), COMP, ERR, LARGE            *)
(*   stopped how often it was told to stop                                 *)
(*   sub     there is a reader, who has subscribed                         *)
(*   want    how many items the reader asked for                           *)
(*   cancel  the reader cancelled                                          *)
(*   got     the items it got                                              *)
(*   ends    the ends it saw: COMP, CANCEL, or the error of the source     *)
(*           (ERR, LARGE), of the other direction (OTHER) or CLOSED        *)
(*   fins    what its final callback was told                              *)
(*   late    how many signals it saw after an end it did not cause, or      *)
(*           while it was still busy with the one before                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Flow0 == [live |-> FALSE, demand |-> 0, sent |-> 0, end |-> "", stopped |-> 0,
          sub |-> FALSE, want |-> 0, cancel |-> FALSE, got |-> <<>>, ends |-> <<>>, fins |-> <<>>, late |-> 0]

\* Items arrive in order, none twice and none that was not sent or not wanted.
InOrder(f) ==
  /\ \A i \in 1..Len(f.got) : f.got[i] = i
  /\ Len(f.got) <= f.sent
  /\ Len(f.got) <= f.want

\* The source is asked for what the reader wants, and all of it if nothing ended.
Demanded(f, closed) ==
  /\ f.demand <= f.want
  /\ ~closed /\ f.live /\ f.ends = <<>> /\ f.end = "" /\ f.stopped = 0 => f.demand = f.want

\* The reader sees one end at most, and one that there was a reason for.
Ended(f, closed, killed) ==
  /\ Len(f.ends) <= 1
  /\ f.late = 0
  /\ f.fins = [i \in 1..Len(f.ends) |-> IF f.ends[i] = "COMP" THEN "COMPLETE" ELSE IF f.ends[i] = "CANCEL" THEN "CANCEL" ELSE "ERROR"]
  /\ f.ends # <<>> =>
       CASE f.ends[1] = "CANCEL" -> f.cancel
         [] f.ends[1] = "CLOSED" -> closed
         [] f.ends[1] = "OTHER"  -> killed
         [] f.ends[1] \in {"COMP", "ERR"} -> f.end = f.ends[1] /\ Len(f.got) = f.sent
         \* What an item too large leads to cannot be told from other errors of the connection.
         [] f.ends[1] = "LARGE" -> f.end = "LARGE" /\ (Len(f.got) = f.sent \/ closed \/ killed)
         [] OTHER -> FALSE

\* No end is lost, nor an item before it.
Complete(f, closed) ==
  /\ f.sub /\ (f.end # "" \/ f.cancel) => Len(f.ends) = 1
  /\ f.sub /\ f.ends = <<>> /\ ~closed => Len(f.got) = f.sent
  /\ closed /\ f.sub /\ f.live => Len(f.ends) = 1

\* A source is told to stop once, when nobody wants its items any more.
Stopped(f, closed, killed) ==
  /\ f.stopped <= 1
  /\ f.stopped = 1 => f.live /\ (f.cancel \/ closed \/ killed \/ f.end = "LARGE")
  /\ f.live /\ f.end = "" /\ (closed \/ (f.ends # <<>> /\ f.ends[1] \in {"CANCEL", "OTHER", "CLOSED"})) => f.stopped = 1
  /\ f.live /\ f.end = "LARGE" => f.stopped = 1

FlowOk(f, closed, killed) ==
  /\ InOrder(f)
  /\ Demanded(f, closed)
  /\ Ended(f, closed, killed)
  /\ Complete(f, closed)
  /\ Stopped(f, closed, killed)

\* A handler is called once for each request, whatever happens to it. Demand
\* travels on its own, so that a cancel can come before the first of it.
Called(r) ==
  /\ r.calls <= IF r.asked THEN 1 ELSE 0
  /\ ~r.closed /\ r.out.ends # <<"CANCEL">> => r.calls = IF r.asked THEN 1 ELSE 0
  /\ r.out.live => r.calls = 1
  /\ r.kind # "RC" => r.inn = Flow0

RunOk(r) ==
  /\ Called(r)
  /\ CASE r.kind = "FNF" -> r.out = Flow0
       [] r.kind = "RR" ->
            \* One outcome for every request, the one it was answered with.
            /\ Len(r.out.ends) + Len(r.out.got) <= 1 /\ r.out.late = 0
            /\ (r.closed \/ r.out.end # "") /\ r.asked => Len(r.out.ends) + Len(r.out.got) = 1
            /\ r.out.got # <<>> => r.out.got = <<1>> /\ r.out.end = "COMP"
            /\ r.out.ends # <<>> =>
                 \/ r.out.ends[1] = "CLOSED" /\ r.closed
                 \/ r.out.ends[1] \in {"ERR", "LARGE"} /\ r.out.ends[1] = r.out.end
       [] OTHER ->
            \* An error of the response ends the input as well.
            LET kills == r.kind = "RC" /\ r.out.end \in {"ERR", "LARGE"} IN
            /\ FlowOk(r.out, r.closed, FALSE)
            /\ r.kind = "RC" => FlowOk(r.inn, r.closed, kills)
=============================================================================
