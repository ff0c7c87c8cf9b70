-------------------------------- MODULE Mono --------------------------------
(***************************************************************************)
(* A mono: one outcome, its value or its error, for everybody who waits.   *)
(* Outcomes are numbered; the observable effects are                       *)
(*   <<"run">>           the source is run                                 *)
(*   <<"success", k>>  <<"error", k>>   the subscriber gets outcome k      *)
(*   <<"finally", sig>>  its finally callback is called                    *)
(*   <<"note", j, sig>>  notification j fires                              *)
(*   <<"blocked", how, k>>  a blocked caller returns                       *)
(*   <<"got", how, k>>   Get returns                                       *)
(* A failed transformation is error 0, a constant's outcome is 100.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

None == [how |-> "", k |-> 0]
Fresh(kind, map) ==
    [kind |-> kind,     \* create, processor, just, error
     map |-> map,       \* none, ok, fail: the transformation, if any
     up |-> "no",       \* no, sub, quiet (nobody looks)
     kept |-> None,     \* an outcome given before anybody subscribed
     end |-> None, settled |-> 0, waits |-> 0, notes |-> 0, told |-> 0, out |-> <<>>]

Const(s) == s.kind \in {"just", "error"}
Ended(s) == s.end # None
Out(s, e) == [s EXCEPT !.out = Append(@, e)]
\* What comes out of the transformation.
Seen(s, x) == IF x.how = "success" /\ s.map = "fail" THEN [how |-> "error", k |-> 0] ELSE x
Sig(s, x) == IF Seen(s, x).how = "error" THEN "error" ELSE "complete"
Told(s, x) == LET y == Seen(s, x) IN <<y.how, y.k>>

RECURSIVE Notes(_, _)
Notes(s, sig) == IF s.told = s.notes THEN s
                 ELSE Notes([Out(s, <<"note", s.told + 1, sig>>) EXCEPT !.told = @ + 1], sig)
RECURSIVE Wake(_)
Wake(s) == IF s.waits = 0 THEN s
           ELSE Wake([Out(s, <<"blocked">> \o Told(s, s.end)) EXCEPT !.waits = @ - 1])

\* The first outcome reaches everybody who waits; later ones nobody.
Deliver(s, x) ==
    IF Ended(s) THEN s
    ELSE LET a == IF s.up = "sub" THEN Out(Out(s, Told(s, x)), <<"finally", Sig(s, x)>>) ELSE s
         IN  Wake(Notes([a EXCEPT !.end = x], Sig(s, x)))
Settle(s, how) ==
    LET k == s.settled + 1
        x == [how |-> how, k |-> k]
        g == [s EXCEPT !.settled = k]
    IN  IF s.up # "no" THEN Deliver(g, x)
        ELSE IF s.kind = "processor" /\ s.kept = None THEN [g EXCEPT !.kept = x]
        ELSE g

RECURSIVE Script(_, _)
Script(s, q) == IF q = <<>> THEN s ELSE Script(Settle(s, q[1]), Tail(q))

ConstOut(s) == [how |-> IF s.kind = "just" THEN "success" ELSE "error", k |-> 100]
\* Subscribing runs the source; a processor has no other source than its user.
Start(s, via, q) ==
    LET a == Out([s EXCEPT !.up = via], <<"run">>)
    IN  IF s.kind = "processor" /\ s.kept # None THEN Deliver(a, s.kept)
        ELSE Script(a, q)
Subscribe(s, q) ==
    IF Const(s) THEN Out(Out(s, Told(s, ConstOut(s))), <<"finally", Sig(s, ConstOut(s))>>)
    ELSE IF Ended(s) THEN LET r == Out(s, <<"run">>) IN Out(Out(r, Told(s, s.end)), <<"finally", Sig(s, s.end)>>)
    ELSE Start(s, "sub", q)
Async(s, q) == IF Const(s) \/ s.up # "no" THEN s ELSE Start(s, "quiet", q)
Note(s) == LET r == [s EXCEPT !.notes = @ + 1]
               now(x) == [Out(r, <<"note", r.notes, Sig(s, x)>>) EXCEPT !.told = @ + 1]
           IN  IF Const(s) THEN now(ConstOut(s)) ELSE IF Ended(s) THEN now(s.end) ELSE r
Block(s, q) == IF Const(s) THEN Out(s, <<"blocked">> \o Told(s, ConstOut(s)))
               ELSE IF Ended(s) THEN Out(s, <<"blocked">> \o Told(s, s.end))
               ELSE Async([s EXCEPT !.waits = @ + 1], q)
Get(s) == IF Const(s) THEN Out(s, <<"got">> \o Told(s, ConstOut(s))) ELSE Out(s, <<"got">> \o Told(s, s.end))

After(s0, a) ==
    LET s == [s0 EXCEPT !.out = <<>>] IN
    CASE a.a = "subscribe" -> Subscribe(s, a.script)
      [] a.a = "async"  -> Async(s, a.script)
      [] a.a = "block"  -> Block(s, a.script)
      [] a.a = "notify" -> Note(s)
      [] a.a = "get"    -> Get(s)
      [] a.a = "settle" -> Settle(s, a.how)
=============================================================================
