------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* One end of a wasmRS connection, seen from outside.                      *)
(*                                                                         *)
(* A slot is one stream. Slots of kind rq* are opened by this end (the     *)
(* requester), slots of kind rp* by the peer (this end responds).          *)
(*                                                                         *)
(* Every action is an input: a frame of the peer, a call of the local      *)
(* user, or a step of user code (a handler that returns, a producer that   *)
(* emits). Its observable effects are the value of `out', a sequence of    *)
(* events <<channel, slot, event...>>:                                     *)
(*   w   frames sent on the stream (request-n excepted)                    *)
(*   wn  demand sent: the initial demand of a request and its request-n    *)
(*   h   calls of handlers                                                 *)
(*   p   what the source of the response sees;       pn  demand it gets    *)
(*   i   what the source of a channel input sees;    in  demand it gets    *)
(*   u   signals the local subscriber gets;          r   what Block returns *)
(* Demand events carry an amount and are summed up by whoever compares.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS
  Slots,        \* names of the streams
  Kind,         \* [Slots -> kind]
  Gated,        \* handlers can return later than they are called
  Limited,      \* frames can be too large to be sent
  Closes,       \* the connection can be closed
  Items,        \* how many items each direction of a stream has at most
  Demand,       \* how much demand is given on each direction at most
  Modes,        \* how responses are subscribed: subset of
                \* {"manual", "auto", "each", "block", "async"}
  Routes,       \* how requests of the peer are routed: subset of
                \* {"ok", "second", "unknown", "short"}
  Strays        \* late and stray frames are sent

VARIABLES st, up, act, out

vars == <<st, up, act, out>>
View == <<st, up>>

Max == 2147483647

Requester(s) == Kind[s] \in {"rqRR", "rqFNF", "rqRS", "rqRC"}
Stream(s)    == Kind[s] \in {"rqRS", "rqRC", "rpRS", "rpRC"}
Channel(s)   == Kind[s] \in {"rqRC", "rpRC"}
Type(s)      == IF Kind[s] \in {"rqRR", "rpRR"} THEN "RR"
                ELSE IF Kind[s] \in {"rqFNF", "rpFNF"} THEN "FNF"
                ELSE IF Kind[s] \in {"rqRS", "rpRS"} THEN "RS" ELSE "RC"

Initial(s) == [
  ph   |-> "idle",      \* idle, made (flux exists), open, wait (for handler), gone
  mode |-> "none",      \* how the response was subscribed
  hnd  |-> "none",      \* the handler of a request: none, called, returned
  out  |-> "open",      \* response direction: open, done
  inn  |-> IF Channel(s) THEN "open" ELSE "done",   \* input direction
  cr   |-> 0,           \* response demand given and not used
  tot  |-> 0,           \* response demand given
  on   |-> 0,           \* response items so far
  sub  |-> FALSE,       \* the response is subscribed
  src  |-> "none",      \* the source of the response: none, live, stopped, ended
  ic   |-> 0, itot |-> 0, ni |-> 0,                 \* the same for the input
  isub |-> FALSE, isrc |-> "none",
  user |-> "open",      \* what the local subscriber has seen: open, ended
  pend |-> "none"]      \* how the input ended before it was subscribed

Init ==
  /\ st = [s \in Slots |-> Initial(s)]
  /\ up = TRUE
  /\ act = [a |-> "Init"]
  /\ out = <<>>

\* A step on one stream: the new state of the slot and the observable effects.
Do(s, a, r, o) ==
  /\ st' = [st EXCEPT ![s] = r]
  /\ UNCHANGED up
  /\ act' = a
  /\ out' = o

Registered(r) == r.ph \in {"open", "wait"}

\* A stream with no open direction is forgotten.
Settle(r) == IF r.out = "done" /\ r.inn = "done" /\ Registered(r)
             THEN [r EXCEPT !.ph = "gone"] ELSE r

----------------------------------------------------------------------------
(* Requester: single response and fire and forget *)

Call1(s, m) ==
  LET r == st[s] IN
  /\ Kind[s] = "rqRR" /\ r.ph = "idle"
  /\ Do(s, [a |-> "Call", s |-> s, m |-> m],
        IF up THEN [r EXCEPT !.ph = "open", !.mode = m]
        ELSE [r EXCEPT !.ph = "gone", !.mode = m, !.user = "ended"],
        IF up THEN << <<"w", s, "REQ", "RR">> >>
        ELSE << <<"u", s, "ERR", "closed">> >>)

Fire(s) ==
  LET r == st[s] IN
  /\ Kind[s] = "rqFNF" /\ r.ph = "idle"
  /\ Do(s, [a |-> "Call", s |-> s, m |-> "fire"], [r EXCEPT !.ph = "gone"],
        IF up THEN << <<"w", s, "REQ", "FNF">> >> ELSE <<>>)

\* The peer answers: a value, an empty completion or an error.
Answer(s, how) ==
  LET r == st[s] IN
  /\ up /\ Kind[s] = "rqRR" /\ r.ph = "open"
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> how, k |-> 1],
        [r EXCEPT !.ph = "gone", !.user = "ended"],
        CASE how \in {"NEXT", "NEXTC"} -> << <<"u", s, "OK", 1>> >>
          [] how = "COMP"  -> << <<"u", s, "OK", 0>> >>
          [] how = "ERROR" -> << <<"u", s, "ERR", "peer">> >>)

----------------------------------------------------------------------------
(* Requester: stream and channel *)

Make(s) ==
  LET r == st[s] IN
  /\ Requester(s) /\ Stream(s) /\ r.ph = "idle"
  /\ Do(s, [a |-> "Make", s |-> s], [r EXCEPT !.ph = "made"], <<>>)

\* What the local subscriber sees. Without callbacks that is only the end.
SeesNext(s, r, k) == IF r.mode = "async" THEN <<>> ELSE << <<"u", s, "NEXT", k>> >>
Fin(s, r, signal, err) ==
  << <<"u", s, "FIN", signal>> >>
  \o IF r.mode = "block" THEN << <<"r", s, "RET", err>> >> ELSE <<>>
SeesEnd(s, r, e) ==
  IF e = "COMP"
  THEN (IF r.mode = "async" THEN <<>> ELSE << <<"u", s, "COMP">> >>) \o Fin(s, r, "COMPLETE", "nil")
  ELSE (IF r.mode = "async" THEN <<>> ELSE << <<"u", s, "ERR", e>> >>) \o Fin(s, r, "ERROR", e)

\* What asking for n items does.
Ask(s, r, n) ==
  IF r.out = "done" THEN [r |-> r, o |-> <<>>]
  ELSE IF r.ph = "made"
  THEN IF up
       THEN [r |-> [r EXCEPT !.ph = "open", !.cr = @ + n, !.tot = @ + n,
                             !.isrc = IF Channel(s) THEN "live" ELSE "none"],
             o |-> << <<"w", s, "REQ", Type(s)>>, <<"wn", s, n>> >>
                   \o IF Channel(s) THEN << <<"i", s, "SUB">> >> ELSE <<>>]
       ELSE [r |-> [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done", !.user = "ended"],
             o |-> SeesEnd(s, r, "closed")]
  ELSE [r |-> [r EXCEPT !.cr = @ + n, !.tot = @ + n],
        o |-> << <<"wn", s, n>> >>]

\* Subscribing. "manual" asks for items by hand, "each" one by one,
\* "auto" for as many as there are; so do the two ways to wait.
Subscribe(s, m) ==
  LET r == [st[s] EXCEPT !.sub = TRUE, !.mode = m]
      a == [a |-> "Sub", s |-> s, m |-> m]
      k == IF m = "manual" THEN [r |-> r, o |-> <<>>]
           ELSE IF m = "each" THEN Ask(s, r, 1) ELSE Ask(s, r, Max)
  IN /\ Requester(s) /\ Stream(s) /\ r.ph = "made" /\ ~st[s].sub
     /\ m \in Modes
     /\ Do(s, a, k.r, k.o)

Request(s, n) ==
  LET r == st[s]
      k == Ask(s, r, n)
  IN /\ Requester(s) /\ Stream(s) /\ r.sub /\ r.mode = "manual"
     /\ r.tot + n <= Demand \/ r.out = "done"
     /\ Do(s, [a |-> "Request", s |-> s, n |-> n], k.r, k.o)

Cancel(s) ==
  LET r == st[s] IN
  /\ Requester(s) /\ Stream(s) /\ r.sub
  /\ Do(s, [a |-> "Cancel", s |-> s],
        IF r.out = "done" THEN r
        ELSE IF r.ph = "made" THEN [r EXCEPT !.out = "done", !.user = "ended", !.ph = "gone"]
        ELSE Settle([r EXCEPT !.out = "done", !.user = "ended"]),
        IF r.out = "done" THEN <<>>
        ELSE (IF r.ph = "open" THEN << <<"w", s, "CANCEL">> >> ELSE <<>>)
             \o Fin(s, r, "CANCEL", "nil"))


\* An item of the peer, possibly its last.
PeerItem(s, last) ==
  LET r0 == st[s]
      k  == r0.on + 1
      open == r0.out = "open"
      again == r0.mode = "each" /\ open /\ ~last
      r1 == IF open THEN [r0 EXCEPT !.on = k, !.cr = @ - 1 + (IF again THEN 1 ELSE 0),
                                    !.tot = @ + (IF again THEN 1 ELSE 0)] ELSE r0
      r2 == IF ~last THEN r1
            ELSE IF open THEN Settle([r1 EXCEPT !.out = "done", !.user = "ended", !.src = "ended"])
            ELSE [r1 EXCEPT !.src = "ended"]
  IN /\ up /\ Requester(s) /\ Stream(s) /\ r0.ph = "open"
     \* Whether the item or its completion is handled first is not defined.
     /\ ~(last /\ r0.mode = "each")
     /\ r0.on < Items
     /\ open => r0.cr > 0
     /\ Do(s, [a |-> "Peer", s |-> s, f |-> IF last THEN "NEXTC" ELSE "NEXT", k |-> k], r2,
           IF ~open THEN <<>>
           ELSE SeesNext(s, r0, k)
                \o (IF r0.mode = "each" THEN << <<"wn", s, 1>> >> ELSE <<>>)
                \o (IF last THEN SeesEnd(s, r1, "COMP") ELSE <<>>))

PeerEnd(s, how) ==
  LET r == st[s]
      open == r.out = "open"
      r1 == [r EXCEPT !.out = "done", !.user = "ended", !.src = "ended"]
  IN /\ up /\ Requester(s) /\ Stream(s) /\ r.ph = "open"
     /\ IF how = "COMP"
        THEN Do(s, [a |-> "Peer", s |-> s, f |-> "COMP", k |-> 0],
                IF open THEN Settle(r1) ELSE [r EXCEPT !.src = "ended"],
                IF open THEN SeesEnd(s, r, "COMP") ELSE <<>>)
        ELSE \* An error is the end of both directions.
             r.src # "ended" /\
             Do(s, [a |-> "Peer", s |-> s, f |-> "ERROR", k |-> 0],
                Settle([r1 EXCEPT !.inn = "done",
                                  !.isrc = IF r.inn = "open" THEN "stopped" ELSE @]),
                (IF r.inn = "open" THEN << <<"i", s, "CANCEL">> >> ELSE <<>>)
                \o IF open THEN SeesEnd(s, r, "peer") ELSE <<>>)

\* Demand for the input of a channel.
PeerRequestN(s, n) ==
  LET r == st[s] IN
  /\ up /\ Kind[s] = "rqRC" /\ r.ph = "open"
  /\ r.itot + n <= Demand
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> "REQN", k |-> n],
        IF r.inn = "open" THEN [r EXCEPT !.ic = @ + n, !.itot = @ + n] ELSE r,
        IF r.inn = "open" THEN << <<"in", s, n>> >> ELSE <<>>)

\* The peer does not want the input any more.
PeerCancelInput(s) ==
  LET r == st[s] IN
  /\ up /\ Kind[s] = "rqRC" /\ r.ph = "open"
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> "CANCEL", k |-> 0],
        IF r.inn = "open" THEN Settle([r EXCEPT !.inn = "done", !.isrc = "stopped"]) ELSE r,
        IF r.inn = "open" THEN << <<"i", s, "CANCEL">> >> ELSE <<>>)

\* The local source of the input. It can still emit after it was stopped.
InputNext(s) ==
  LET r == st[s] IN
  /\ Kind[s] = "rqRC" /\ r.isrc \in {"live", "stopped"} /\ r.ni < Items
  /\ r.isrc = "live" => r.ic > 0
  /\ Do(s, [a |-> "Input", s |-> s, f |-> "NEXT", k |-> r.ni + 1],
        [r EXCEPT !.ni = @ + 1, !.ic = IF @ > 0 THEN @ - 1 ELSE 0],
        IF r.inn = "open" THEN << <<"w", s, "NEXT", r.ni + 1>> >> ELSE <<>>)

InputEnd(s, how) ==
  LET r == st[s] IN
  /\ Kind[s] = "rqRC" /\ r.isrc \in {"live", "stopped"}
  /\ Do(s, [a |-> "Input", s |-> s, f |-> how, k |-> 0],
        Settle([r EXCEPT !.inn = "done", !.isrc = "ended"]),
        IF r.inn = "done" THEN <<>>
        ELSE IF how = "COMP" THEN << <<"w", s, "COMP">> >>
        ELSE << <<"w", s, "ERROR", "input">> >>)

\* An item that is too large to be sent ends the input.
InputTooLarge(s) ==
  LET r == st[s] IN
  /\ Limited /\ Kind[s] = "rqRC" /\ r.isrc = "live" /\ r.ic > 0 /\ r.inn = "open"
  /\ Do(s, [a |-> "Input", s |-> s, f |-> "LARGE", k |-> 0],
        Settle([r EXCEPT !.inn = "done", !.isrc = "stopped"]),
        << <<"i", s, "CANCEL">>, <<"w", s, "ERROR", "large">> >>)

----------------------------------------------------------------------------
(* Responder *)

\* Calling the handler of a request, and what follows when it returns at once.
Subscribed(s, r, total) ==
  [r |-> [r EXCEPT !.ph = "open", !.hnd = "returned", !.sub = TRUE, !.src = "live", !.cr = total],
   o |-> << <<"p", s, "SUB">> >> \o IF total > 0 THEN << <<"pn", s, total>> >> ELSE <<>>]

PeerRequest(s, n, route) ==
  LET r == st[s]
      op == IF route = "ok" THEN 0 ELSE 1
      a == [a |-> "PeerRequest", s |-> s, t |-> Type(s), n |-> n, route |-> route]
      called == << <<"h", s, "CALL", Type(s), op>> >>
  IN /\ up /\ ~Requester(s) /\ r.ph = "idle" /\ route \in Routes
     /\ IF Stream(s) THEN n <= Demand ELSE n = 0
     /\ CASE route = "unknown" ->
               Do(s, a, [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done"],
                  << <<"w", s, "ERROR", "not_found">> >>)
          [] route = "short" ->
               Do(s, a, [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done"],
                  << <<"w", s, "ERROR", "Invalid metadata">> >>)
          [] Type(s) = "FNF" ->
               Do(s, a, [r EXCEPT !.ph = "gone", !.out = "done"], called)
          [] Gated ->
               Do(s, a, [r EXCEPT !.ph = "wait", !.hnd = "called", !.cr = n, !.tot = n], called)
          [] Type(s) = "RR" ->
               Do(s, a, [r EXCEPT !.ph = "open", !.hnd = "returned", !.src = "live"], called \o << <<"p", s, "SUB">> >>)
          [] OTHER ->
               LET k == Subscribed(s, [r EXCEPT !.tot = n], n) IN Do(s, a, k.r, called \o k.o)

\* The handler returns its response, which is subscribed if it is still wanted.
Return(s) ==
  LET r == st[s]
      a == [a |-> "Return", s |-> s]
  IN /\ r.hnd = "called"
     /\ IF Type(s) = "RR"
        THEN Do(s, a, [r EXCEPT !.ph = "open", !.hnd = "returned", !.src = "live"], << <<"p", s, "SUB">> >>)
        ELSE IF r.out = "done"
        THEN Do(s, a, [r EXCEPT !.hnd = "returned"], <<>>)
        ELSE LET k == Subscribed(s, r, r.cr) IN Do(s, a, k.r, k.o)

\* Demand and cancels can come before the handler has returned.
DemandN(s, n) ==
  LET r == st[s] IN
  /\ up /\ ~Requester(s) /\ Stream(s) /\ Registered(r)
  /\ r.tot + n <= Demand
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> "REQN", k |-> n],
        IF r.out = "open" THEN [r EXCEPT !.cr = @ + n, !.tot = @ + n] ELSE r,
        IF r.out = "open" /\ r.src = "live" THEN << <<"pn", s, n>> >> ELSE <<>>)

PeerCancel(s) ==
  LET r == st[s] IN
  /\ up /\ ~Requester(s) /\ Stream(s) /\ Registered(r)
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> "CANCEL", k |-> 0],
        IF r.out = "open"
        THEN Settle([r EXCEPT !.out = "done", !.src = IF r.src = "live" THEN "stopped" ELSE @])
        ELSE r,
        IF r.out = "open" /\ r.src = "live" THEN << <<"p", s, "CANCEL">> >> ELSE <<>>)

\* The source of the response. It can still emit after it was stopped.
Emit(s) ==
  LET r == st[s] IN
  /\ ~Requester(s) /\ Stream(s) /\ r.src \in {"live", "stopped"} /\ r.on < Items
  /\ r.src = "live" => r.cr > 0
  /\ Do(s, [a |-> "Emit", s |-> s, f |-> "NEXT", k |-> r.on + 1],
        [r EXCEPT !.on = @ + 1, !.cr = IF @ > 0 THEN @ - 1 ELSE 0],
        IF r.out = "open" THEN << <<"w", s, "NEXT", r.on + 1>> >> ELSE <<>>)

EmitTooLarge(s) ==
  LET r == st[s]
      fails == << <<"w", s, "ERROR", "large">> >>
  IN
  /\ Limited /\ ~Requester(s) /\ Stream(s) /\ r.src = "live" /\ r.out = "open" /\ r.cr > 0
  /\ Do(s, [a |-> "Emit", s |-> s, f |-> "LARGE", k |-> 0],
        [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done", !.src = "stopped",
                  !.user = IF r.isub THEN "ended" ELSE @,
                  !.pend = IF r.inn = "open" /\ ~r.isub THEN "large" ELSE @],
        << <<"p", s, "CANCEL">> >> \o fails
        \o IF r.inn = "open" /\ r.isub
           THEN SeesEnd(s, r, "large") ELSE <<>>)

EmitEnd(s, how) ==
  LET r == st[s]
      open == r.out = "open"
      hits == open /\ how = "ERROR" /\ r.inn = "open"
  IN /\ ~Requester(s) /\ Stream(s) /\ r.src \in {"live", "stopped"}
     /\ Do(s, [a |-> "Emit", s |-> s, f |-> how, k |-> 0],
           IF ~open THEN [r EXCEPT !.src = "ended"]
           ELSE IF how = "COMP" THEN Settle([r EXCEPT !.src = "ended", !.out = "done"])
           ELSE Settle([r EXCEPT !.src = "ended", !.out = "done", !.inn = "done",
                          !.user = IF hits /\ r.isub THEN "ended" ELSE @,
                          !.pend = IF hits /\ ~r.isub THEN "emit" ELSE @]),
           IF ~open THEN <<>>
           ELSE IF how = "COMP" THEN << <<"w", s, "COMP">> >>
           ELSE << <<"w", s, "ERROR", "emit">> >>
                \o IF hits /\ r.isub
                   THEN SeesEnd(s, r, "emit") ELSE <<>>)

\* The single response. Only the first outcome counts.
Resolve(s, how) ==
  LET r == st[s]
      first == r.out = "open" /\ up
  IN /\ Kind[s] = "rpRR" /\ r.src \in {"live", "ended"}
     /\ how = "LARGE" => Limited
     /\ Do(s, [a |-> "Emit", s |-> s, f |-> how, k |-> 1],
           [r EXCEPT !.ph = "gone", !.out = "done", !.src = "ended"],
           IF ~first THEN <<>>
           ELSE IF how = "NEXT" THEN << <<"w", s, "NEXTC", 1>> >>
           ELSE IF how = "LARGE" THEN << <<"w", s, "ERROR", "large">> >>
           ELSE << <<"w", s, "ERROR", "emit">> >>)

\* The handler of a channel reads its input.
ReadInput(s) ==
  LET r == st[s] IN
  /\ Kind[s] = "rpRC" /\ ~r.isub /\ r.hnd # "none"
  /\ Do(s, [a |-> "ReadSub", s |-> s],
        [r EXCEPT !.isub = TRUE, !.pend = "none",
                  !.user = IF r.inn = "done" THEN "ended" ELSE @],
        IF r.pend = "none" THEN <<>>
        ELSE SeesEnd(s, r, r.pend))

ReadRequest(s, n) ==
  LET r == st[s] IN
  /\ Kind[s] = "rpRC" /\ r.isub /\ r.user = "open" /\ r.inn = "open"
  /\ r.itot + n <= Demand
  /\ Do(s, [a |-> "ReadRequest", s |-> s, n |-> n],
        [r EXCEPT !.ic = @ + n, !.itot = @ + n], IF up THEN << <<"wn", s, n>> >> ELSE <<>>)

ReadCancel(s) ==
  LET r == st[s] IN
  /\ Kind[s] = "rpRC" /\ r.isub
  /\ Do(s, [a |-> "ReadCancel", s |-> s],
        IF r.user = "open" THEN Settle([r EXCEPT !.user = "ended", !.inn = "done"]) ELSE r,
        IF r.user # "open" THEN <<>>
        ELSE << <<"w", s, "CANCEL">>, <<"u", s, "FIN", "CANCEL">> >>)

\* The peer's input.
PeerInput(s, last) ==
  LET r == st[s]
      k == r.ni + 1
      open == r.inn = "open"
      r1 == [r EXCEPT !.ni = k, !.ic = IF @ > 0 THEN @ - 1 ELSE 0]
  IN /\ up /\ Kind[s] = "rpRC" /\ Registered(r) /\ r.ni < Items
     /\ open => r.ic > 0
     /\ Do(s, [a |-> "Peer", s |-> s, f |-> IF last THEN "NEXTC" ELSE "NEXT", k |-> k],
           IF ~open THEN r
           ELSE IF last THEN Settle([r1 EXCEPT !.inn = "done", !.user = "ended"]) ELSE r1,
           IF ~open THEN <<>>
           ELSE << <<"u", s, "NEXT", k>> >> \o IF last THEN SeesEnd(s, r, "COMP") ELSE <<>>)

PeerInputEnd(s, how) ==
  LET r == st[s]
      open == r.inn = "open"
      sig == IF how = "COMP" THEN "COMP" ELSE "peer"
  IN /\ up /\ Kind[s] = "rpRC" /\ Registered(r)
     /\ Do(s, [a |-> "Peer", s |-> s, f |-> how, k |-> 0],
           IF ~open THEN r
           ELSE Settle([r EXCEPT !.inn = "done",
                          !.user = IF r.isub THEN "ended" ELSE @,
                          !.pend = IF r.isub THEN "none" ELSE sig]),
           IF open /\ r.isub THEN SeesEnd(s, r, sig) ELSE <<>>)

----------------------------------------------------------------------------
(* Frames that make no sense for the stream: never opened, already         *)
(* forgotten, or of a type of request without that direction.              *)

Stray(s, f) ==
  LET r == st[s] IN
  /\ Strays /\ up
  /\ \/ r.ph \in {"idle", "made", "gone"}
     \/ Kind[s] \in {"rpRR", "rpFNF"}
     \/ Kind[s] = "rqRR" /\ f \in {"REQN", "CANCEL"}
     \/ Kind[s] = "rqRS" /\ f \in {"REQN", "CANCEL"}
     \/ Kind[s] = "rpRS" /\ f \in {"NEXT", "NEXTC", "COMP", "ERROR"}
  \* The contents of a frame for a stream that is not open do not matter at all.
  /\ Do(s, [a |-> "Peer", s |-> s, f |-> f, k |-> 1,
            any |-> IF r.ph \in {"idle", "made", "gone"} THEN 1 ELSE 0], r, <<>>)

----------------------------------------------------------------------------
(* The end of the connection *)

Range(q) == {q[i] : i \in 1..Len(q)}

Closed(s) ==
  LET r == st[s]
      reg == Registered(r)
  IN IF Kind[s] = "rqRR" /\ r.ph = "open"
     THEN [r |-> [r EXCEPT !.ph = "gone", !.user = "ended"], o |-> << <<"u", s, "ERR", "closed">> >>]
     ELSE IF Requester(s) /\ Stream(s) /\ reg
     THEN [r |-> [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done", !.user = "ended",
                           !.isrc = IF r.inn = "open" THEN "stopped" ELSE @],
           o |-> (IF r.inn = "open" THEN << <<"i", s, "CANCEL">> >> ELSE <<>>)
                 \o IF r.out = "open" THEN SeesEnd(s, r, "closed") ELSE <<>>]
     ELSE IF ~Requester(s) /\ Stream(s) /\ reg
     THEN [r |-> [r EXCEPT !.ph = "gone", !.out = "done", !.inn = "done",
                           !.src = IF r.src = "live" /\ r.out = "open" THEN "stopped" ELSE @,
                           !.user = IF r.isub THEN "ended" ELSE @,
                           !.pend = IF r.inn = "open" /\ ~r.isub THEN "closed" ELSE @],
           o |-> (IF r.src = "live" /\ r.out = "open" THEN << <<"p", s, "CANCEL">> >> ELSE <<>>)
                 \o IF r.inn = "open" /\ r.isub THEN SeesEnd(s, r, "closed") ELSE <<>>]
     ELSE [r |-> r, o |-> <<>>]

RECURSIVE Concat(_)
Concat(S) == IF S = {} THEN <<>>
             ELSE LET s == CHOOSE x \in S : TRUE IN Closed(s).o \o Concat(S \ {s})

Close ==
  /\ Closes /\ up
  /\ up' = FALSE
  /\ st' = [s \in Slots |-> Closed(s).r]
  /\ act' = [a |-> "Close"]
  /\ out' = Concat(Slots)

----------------------------------------------------------------------------

Next ==
  \/ \E s \in Slots :
       \/ \E m \in {"auto", "block", "async"} \cap Modes : Call1(s, m)
       \/ Fire(s)
       \/ \E h \in {"NEXT", "NEXTC", "COMP", "ERROR"} : Answer(s, h)
       \/ Make(s)
       \/ \E m \in Modes : Subscribe(s, m)
       \/ \E n \in 1..2 : Request(s, n)
       \/ Cancel(s)
       \/ \E l \in BOOLEAN : PeerItem(s, l)
       \/ \E h \in {"COMP", "ERROR"} : PeerEnd(s, h)
       \/ \E n \in 1..2 : PeerRequestN(s, n)
       \/ PeerCancelInput(s)
       \/ InputNext(s)
       \/ \E h \in {"COMP", "ERROR"} : InputEnd(s, h)
       \/ InputTooLarge(s)
       \/ \E n \in 0..2, route \in Routes : PeerRequest(s, n, route)
       \/ Return(s)
       \/ \E n \in 1..2 : DemandN(s, n)
       \/ PeerCancel(s)
       \/ Emit(s)
       \/ EmitTooLarge(s)
       \/ \E h \in {"COMP", "ERROR"} : EmitEnd(s, h)
       \/ \E h \in {"NEXT", "ERROR", "LARGE"} : Resolve(s, h)
       \/ ReadInput(s)
       \/ \E n \in 1..2 : ReadRequest(s, n)
       \/ ReadCancel(s)
       \/ \E l \in BOOLEAN : PeerInput(s, l)
       \/ \E h \in {"COMP", "ERROR"} : PeerInputEnd(s, h)
       \/ \E f \in {"NEXT", "NEXTC", "COMP", "ERROR", "REQN", "CANCEL"} : Stray(s, f)
  \/ Close

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties *)

Events(ch, s) == SelectSeq(out, LAMBDA e : e[1] = ch /\ e[2] = s)
NewEvents(ch, s) == SelectSeq(out', LAMBDA e : e[1] = ch /\ e[2] = s)

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1][3] + Sum(Tail(q))

\* A producer that honours its demand emits exactly what was asked for.
CreditConserved ==
  \A s \in Slots :
    /\ ~Requester(s) /\ st[s].src = "live" => st[s].cr + st[s].on = st[s].tot
    /\ Requester(s) /\ st[s].isrc = "live" => st[s].ic + st[s].ni = st[s].itot
    /\ Requester(s) /\ Stream(s) /\ st[s].out = "open" => st[s].cr + st[s].on = st[s].tot

\* No direction stays open on a forgotten stream, and one without any is forgotten.
Forgotten ==
  \A s \in Slots : Stream(s) =>
    /\ st[s].ph = "gone" /\ Kind[s] # "rqRC" => st[s].out = "done" /\ st[s].inn = "done"
    /\ Registered(st[s]) => st[s].out = "open" \/ st[s].inn = "open"

\* The local subscriber sees nothing after its end, and one end only.
EndsOnce == [][\A s \in Slots :
    LET fins == SelectSeq(NewEvents("u", s), LAMBDA e : e[3] \in {"FIN", "OK"} \/ Kind[s] = "rqRR") IN
    /\ st[s].user = "ended" => NewEvents("u", s) = <<>>
    /\ st[s].user = "open" => Len(fins) = IF st'[s].user = "ended" THEN 1 ELSE 0]_vars

\* Nothing is sent in a direction that has ended or was cancelled,
\* and nothing at all once the connection is down.
QuietAfterEnd == [][\A s \in Slots :
    LET w == SelectSeq(NewEvents("w", s), LAMBDA e : e[3] # "CANCEL") IN
    /\ ~Requester(s) /\ Stream(s) /\ st[s].out = "done" => w = <<>>
    /\ Requester(s) /\ st[s].ph # "made" /\ st[s].inn = "done" /\ Stream(s) => w = <<>>
    /\ ~up => NewEvents("w", s) = <<>> /\ NewEvents("wn", s) = <<>>]_vars

\* Demand travels unchanged in both directions.
DemandTravels == [][\A s \in Slots :
    /\ Requester(s) /\ Stream(s) /\ st[s].out = "open" /\ st'[s].tot > st[s].tot =>
         Sum(NewEvents("wn", s)) = st'[s].tot - st[s].tot
    /\ Sum(NewEvents("in", s)) = st'[s].itot - st[s].itot \/ ~Requester(s)]_vars

\* A stream is told once that it is cancelled, and then it is stopped.
StopsOnce == [][\A s \in Slots :
    /\ NewEvents("p", s) # <<>> /\ NewEvents("p", s)[1][3] = "CANCEL" =>
         st[s].src = "live" /\ st'[s].src = "stopped"
    /\ NewEvents("i", s) # <<>> /\ NewEvents("i", s)[1][3] = "CANCEL" =>
         st[s].isrc = "live" /\ st'[s].isrc = "stopped"]_vars

\* A step of one stream has no effect on any other.
Isolated == [][act'.a # "Close" =>
    \A s \in Slots : s # act'.s =>
      /\ st'[s] = st[s]
      /\ \A i \in 1..Len(out') : out'[i][2] # s]_vars

\* When the connection is down nothing waits for it.
NothingWaits ==
  ~up => \A s \in Slots :
    /\ ~Registered(st[s]) \/ Kind[s] = "rpRR"
    /\ Requester(s) /\ st[s].ph = "gone" /\ Kind[s] # "rqFNF" => st[s].user = "ended"
=============================================================================
