----------------------------- MODULE FluxModel -----------------------------
(***************************************************************************)
(* Everything that can happen to one flux, within bounds.                  *)
(***************************************************************************)
EXTENDS Flux, TLC, FiniteSets

CONSTANTS Kinds, Modes, Items, Notes, Scripts, Demand, Blocks
VARIABLES s, act
vars == <<s, act>>

A(a) == [a |-> a, via |-> "", script |-> <<>>, react |-> "", n |-> 0]

Init == /\ \E k \in Kinds, m \in Modes : s = Fresh(k, m)
        /\ act = A("")

Do(a) == act' = a /\ s' = After(s, a)

Reacts == {"", "req", "cancel", "end", "err"} \cup (IF Maps(s) THEN {"fail"} ELSE {}) \cup (IF s.kind = "map2" THEN {"fail2"} ELSE {})
Vias == {"sub", "async"} \cup (IF Blocks THEN {"block"} ELSE {})
\* A source that is set beforehand cannot set itself again.
Fits(q) == ~(s.set /\ \E i \in DOMAIN q : q[i] = "sub")
Next == \/ /\ s.up = "no"
           /\ \E v \in Vias, q \in {x \in Scripts : Fits(x)} : Do([A("subscribe") EXCEPT !.via = v, !.script = IF Const(s) THEN <<>> ELSE q])
        \/ /\ ~Const(s) /\ ~s.set /\ Do(A("set"))
        \/ /\ ~Const(s) /\ s.items < Items /\ s.n > -1
           /\ \E r \in Reacts : Do([A("item") EXCEPT !.react = IF s.up \in {"sub", "block"} /\ ~Ended(s) THEN r ELSE ""])
        \/ /\ ~Const(s) /\ s.items <= Items
           /\ \E r \in {"", "cancel", "notify"} : s.notes < Notes /\ Do([A("complete") EXCEPT !.react = IF Sees(s) /\ ~Ended(s) THEN r ELSE ""])
        \/ /\ ~Const(s)
           /\ \E r \in {"", "cancel", "notify"} : s.notes < Notes /\ Do([A("error") EXCEPT !.react = IF Sees(s) /\ ~Ended(s) THEN r ELSE ""])
        \/ /\ s.up # "no" /\ s.mode # "auto"
           /\ \E k \in 1..Demand : s.n + k <= Demand + 1 /\ Do([A("request") EXCEPT !.n = k])
        \/ /\ s.up # "no" /\ Do(A("cancel"))
        \/ /\ s.notes < Notes /\ Do(A("notify"))
        \/ /\ Blocks /\ Ended(s) /\ s.up # "no" /\ Do(A("block"))
        \/ /\ s.up # "no" /\ Do(A("async"))
Spec == Init /\ [][Next]_vars

View == [s EXCEPT !.out = <<>>, !.asked = 0]

Count(o, x) == Cardinality({i \in DOMAIN o : o[i][1] = x})
Was(o, x) == Count(o, x) > 0
o == s'.out
\* The end comes once and nothing follows it.
OneEnd == [][ ~Const(s) => /\ Count(o, "finally") <= 1
                           /\ Count(o, "complete") + Count(o, "error") <= 1
                           /\ Ended(s) => ~(\E x \in {"next", "complete", "error", "finally", "srcreq", "srccancel", "onreq"} : Was(o, x))
                           /\ (Was(o, "finally") => Ended(s') /\ \A i, j \in DOMAIN o : o[i][1] = "finally" /\ o[j][1] \in {"next", "complete", "error", "srccancel", "srcreq"} => j < i)
                           /\ Sees(s') /\ ~Ended(s) /\ Ended(s') => Was(o, "finally") ]_vars
\* Items keep their order.
InOrder == [][ \A i, j \in DOMAIN o : i < j /\ o[i][1] = "next" /\ o[j][1] = "next" => o[i][2] < o[j][2] ]_vars
\* Everybody who wanted to know is told once, with the signal that ended it.
Told == (Ended(s) => s.told = s.notes) /\ (~Ended(s) /\ ~Const(s) => s.told = 0)
NotesMatch == [][ ~Const(s) => \A i \in DOMAIN o : o[i][1] = "note" => o[i][3] = s'.end ]_vars
\* The source is asked for exactly what was requested: demand is what was
\* requested less the items that came.
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (IF q[1][1] = "srcreq" THEN q[1][2] ELSE 0) + Sum(Tail(q))
DemandPassed == [][ /\ s.set /\ s.up # "no" /\ ~Ended(s') => Sum(o) = s'.n - s.n + s'.items - s.items
                    /\ ~s.set /\ s'.set /\ s.up # "no" /\ ~Ended(s') => Sum(o) = (IF s.n > 0 THEN s.n ELSE 0)
                    /\ ~s'.set => Sum(o) = 0 ]_vars
\* Cancelled only by a cancel or a failed transformation, and only once.
CancelledOnce == [][ Was(o, "srccancel") => ~Ended(s) /\ Ended(s') /\ s'.end \in {"cancel", "error"} /\ Count(o, "srccancel") = 1 ]_vars
=============================================================================
