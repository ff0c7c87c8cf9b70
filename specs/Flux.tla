-------------------------------- MODULE Flux --------------------------------
(***************************************************************************)
(* A flux: a source that is run when somebody subscribes, its subscriber,  *)
(* the demand travelling one way and the items and the end the other way.  *)
(* The state is one record; every operator below maps it to the record     *)
(* after an event, appending the effects that can be observed to `out`:    *)
(*   <<"run">>          the source is run                                  *)
(*   <<"next", i>>      the subscriber gets item i                         *)
(*   <<"complete">>  <<"error", e>>   it gets the end                      *)
(*   <<"finally", sig>> its finally callback is called                     *)
(*   <<"note", k, sig>> notification k fires                               *)
(*   <<"onreq">>        it is asked to request items                       *)
(*   <<"srcreq", n>>    the source is asked for n items                    *)
(*   <<"srccancel">>    the source is cancelled                            *)
(*   <<"blocked", e>>   a blocked caller returns with error e ("": none)   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max == 1000          \* the maximum demand

Fresh(kind, mode) ==
    [kind |-> kind,   \* plain, map (a transformation), map2 (two of them), error (a constant error), maperror
     mode |-> mode,   \* how the subscriber requests: auto, manual, each (one at a time), none
     up |-> "no",     \* no, sub, async (no callbacks), block
     set |-> FALSE,   \* the source has told how it is asked for items
     end |-> "", err |-> "", n |-> 0, items |-> 0, notes |-> 0, told |-> 0, asked |-> 0, out |-> <<>>]

Const(s) == s.kind \in {"error", "maperror"}
Maps(s) == s.kind \in {"map", "map2"}
Sees(s) == s.up \in {"sub", "block"}
Ended(s) == s.end # ""
Out(s, e) == [s EXCEPT !.out = Append(@, e)]
See(s, e) == IF Sees(s) THEN Out(s, e) ELSE s

Ask(s, k) == IF Ended(s) THEN s
             ELSE LET r == [s EXCEPT !.n = @ + k]
                  IN  IF s.set THEN [Out(r, <<"srcreq", k>>) EXCEPT !.asked = @ + k] ELSE r
\* The subscriber is asked to request.
Invite(s) == IF Ended(s) \/ (s.mode = "none" /\ s.up # "async") THEN s
             ELSE IF s.mode = "auto" \/ s.up = "async" THEN Ask(s, Max)
             ELSE IF s.mode = "manual" THEN See(s, <<"onreq">>)
             ELSE Ask(See(s, <<"onreq">>), 1)

RECURSIVE NoteAll(_, _)
NoteAll(s, sig) == IF s.told = s.notes THEN s
                   ELSE NoteAll([Out(s, <<"note", s.told + 1, sig>>) EXCEPT !.told = @ + 1], sig)
Note(s) == LET r == [s EXCEPT !.notes = @ + 1]
           IN  IF Ended(s) \/ Const(s)
               THEN [Out(r, <<"note", r.notes, IF Const(s) THEN "error" ELSE s.end>>) EXCEPT !.told = @ + 1]
               ELSE r

\* The end, with what the subscriber does in its finally callback.
Finish(s, sig, react) ==
    LET a == See([s EXCEPT !.end = sig, !.n = 0], <<"finally", sig>>)
        b == IF react = "notify" /\ Sees(s) THEN [a EXCEPT !.notes = @ + 1] ELSE a
        c == NoteAll(b, sig)
    IN  IF s.up = "block" THEN Out(c, <<"blocked", c.err>>) ELSE c
Complete(s, react) == IF s.up = "no" \/ Ended(s) THEN s ELSE Finish(See(s, <<"complete">>), "complete", react)
Error(s, e, react) == IF s.up = "no" \/ Ended(s) THEN s
                      ELSE Finish(See([s EXCEPT !.err = e], <<"error", e>>), "error", react)
Cancel(s) == IF Ended(s) THEN s
             ELSE Finish(IF s.set THEN Out(s, <<"srccancel">>) ELSE s, "cancel", "")
\* A transformation has failed.
Broke(s, e) == LET c == IF s.set THEN Out(s, <<"srccancel">>) ELSE s
               IN  Finish(See([c EXCEPT !.err = e], <<"error", e>>), "error", "")

\* An item, with what the subscriber (or the transformation) does with it.
Item(s, react) ==
    LET i == s.items + 1
        g == [s EXCEPT !.items = i]
    IN  IF s.up = "no" \/ Ended(s) THEN g
        ELSE LET a == [g EXCEPT !.n = @ - 1]
                 fails == react \in {"fail", "fail2"} /\ Maps(s) /\ Sees(s)
                 b == IF fails THEN Broke(a, "broken") ELSE See(a, <<"next", i>>)
                 c == IF fails \/ ~Sees(s) THEN b
                      ELSE CASE react = "req" -> Ask(b, 1)
                             [] react = "cancel" -> Cancel(b)
                             [] react = "end" -> Complete(b, "")
                             [] react = "err" -> Error(b, "e", "")
                             [] OTHER -> b
             IN  IF c.n = 0 /\ ~Ended(c) THEN Invite(c) ELSE c

\* The source tells how it is asked for items.
Set(s) == LET r == [s EXCEPT !.set = TRUE]
          IN  IF s.up = "no" \/ Ended(s) \/ s.n <= 0 THEN r
              ELSE [Out(r, <<"srcreq", s.n>>) EXCEPT !.asked = @ + s.n]

RECURSIVE Script(_, _)
Script(s, q) == IF q = <<>> THEN s
                ELSE Script(CASE q[1] = "sub" -> Set(s)
                              [] q[1] = "item" -> Item(s, "")
                              [] q[1] = "complete" -> Complete(s, "")
                              [] q[1] = "error" -> Error(s, "e", ""), Tail(q))

\* Somebody subscribes; the source does q while it is run.
Subscribe(s, via, q) ==
    IF Const(s)
    THEN LET a == See([s EXCEPT !.up = via, !.err = "constant"], <<"error", "constant">>)
             b == IF via = "sub" THEN Out(a, <<"finally", "error">>) ELSE a
         IN  [IF via = "block" THEN
                (IF s.kind = "error" THEN Out([s EXCEPT !.up = via], <<"blocked", "constant">>)
                 ELSE Out(Out(a, <<"finally", "error">>), <<"blocked", "constant">>)) ELSE b EXCEPT !.up = "no"]
    ELSE Invite(Script(Out([s EXCEPT !.up = via], <<"run">>), q))

\* A slice sends what is left as it is requested, then completes.
RECURSIVE Serve(_, _, _)
Serve(s, left, plan) ==
    IF Ended(s) \/ s.up = "no" \/ s.asked = 0 THEN s
    ELSE IF s.items = left THEN Complete(s, "")
    ELSE IF s.n <= 0 THEN s
    ELSE Serve(Item(s, IF s.items + 1 \in DOMAIN plan THEN plan[s.items + 1] ELSE ""), left, plan)

\* One event.
After(s0, a) ==
    LET s == [s0 EXCEPT !.out = <<>>] IN
    CASE a.a = "subscribe" -> Subscribe(s, a.via, a.script)
      [] a.a = "set"      -> Set(s)
      [] a.a = "item"     -> Item(s, a.react)
      [] a.a = "complete" -> Complete(s, a.react)
      [] a.a = "error"    -> Error(s, "e", a.react)
      [] a.a = "request"  -> Ask(s, a.n)
      [] a.a = "cancel"   -> Cancel(s)
      [] a.a = "notify"   -> Note(s)
      [] a.a = "block"    -> Out(s, <<"blocked", s.err>>)
      [] a.a = "async"    -> s

\* A slice that is asked for items: what each of the events of acts shows.
RECURSIVE Sliced(_, _, _, _)
Sliced(s, left, plan, acts) ==
    IF acts = <<>> THEN <<>>
    ELSE LET r == Serve(After(s, acts[1]), left, plan) IN <<r.out>> \o Sliced(r, left, plan, Tail(acts))
Slice(r) == Sliced([Fresh(r.flux, r.mode) EXCEPT !.set = TRUE], r.left, r.plan, r.acts)
=============================================================================
