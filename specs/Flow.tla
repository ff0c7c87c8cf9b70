-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* A flow: steps that run in order, each after everything the one before   *)
(* it waits for has ended. A plan says what each step does:                *)
(*   items  how many items it gives to the flow (a flux)                   *)
(*   fin    how it leaves: "" (it waits for its group), end, err (returns  *)
(*          an error), ferr (Flow.Error), value (Success or Complete),     *)
(*          both (a value, then returns an error)                          *)
(*   g      what it waits for: done and failed (have ended), made (runs    *)
(*          and ends when awaited), late (ends when told so, before or     *)
(*          after it is awaited), same (the late one before it again)      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Fresh == [at |-> 0, over |-> FALSE, outcome |-> "", ended |-> {}, out |-> <<>>]
Out(s, e) == [s EXCEPT !.out = Append(@, e)]

RECURSIVE Times(_, _, _)
Times(s, k, n) == IF n = 0 THEN s ELSE Times(Out(s, <<"item", k>>), k, n - 1)

\* The outcome reaches whoever subscribed to the flow, once.
Outcome(s, flux, how, k) ==
    IF s.outcome # "" THEN s
    ELSE LET r == [s EXCEPT !.outcome = how]
         IN  IF how = "error" THEN Out(Out(r, <<"error", k>>), <<"finally", "error">>)
             ELSE Out(Out(r, IF flux THEN <<"complete">> ELSE <<"success", k>>), <<"finally", "complete">>)

\* Whether awaitable i of step k has ended when it is looked at.
RECURSIVE Over(_, _, _, _)
Over(s, g, k, i) == CASE g[i] = "late" -> <<k, i>> \in s.ended
                      [] g[i] = "same" -> Over(s, g, k, i - 1)
                      [] OTHER -> TRUE
RECURSIVE Made(_, _, _, _)
Made(s, g, k, i) == IF i > Len(g) THEN s
                    ELSE Made(IF g[i] = "made" THEN Out(s, <<"ran", k, i>>) ELSE s, g, k, i + 1)

RECURSIVE Enter(_, _, _)
Enter(s, p, k) ==
    IF k > Len(p.steps) THEN [s EXCEPT !.at = k]
    ELSE LET st == p.steps[k]
             a == Times(Out([s EXCEPT !.at = k], <<"step", k>>), k, IF p.flux THEN st.items ELSE 0)
             stop(x) == [x EXCEPT !.over = TRUE]
         IN  CASE st.fin = "end"   -> stop(a)
               [] st.fin \in {"err", "ferr"} -> stop(Outcome(a, p.flux, "error", k))
               [] st.fin \in {"value", "both"} -> stop(Outcome(a, p.flux, "value", k))
               [] OTHER -> LET b == Made(a, st.g, k, 1)
                           IN  IF \A i \in DOMAIN st.g : Over(b, st.g, k, i) THEN Enter(b, p, k + 1) ELSE b

Settle(s, p, k, i) ==
    LET r == [s EXCEPT !.ended = @ \cup {<<k, i>>}]
    IN  IF s.at # k \/ s.over \/ <<k, i>> \in s.ended THEN r
        ELSE IF \A j \in DOMAIN p.steps[k].g : Over(r, p.steps[k].g, k, j) THEN Enter(r, p, k + 1) ELSE r

RECURSIVE SettleAll(_, _, _)
SettleAll(s, p, q) == IF q = <<>> THEN s ELSE SettleAll(Settle(s, p, q[1][1], q[1][2]), p, Tail(q))

After(s0, p, a) == LET s == [s0 EXCEPT !.out = <<>>]
                   IN  IF a.a = "start" THEN Enter(s, p, 1) ELSE SettleAll(s, p, a.which)
RECURSIVE Fold(_, _, _)
Fold(s, p, acts) == IF acts = <<>> THEN <<>>
                    ELSE LET r == After(s, p, acts[1]) IN <<r.out>> \o Fold(r, p, Tail(acts))
Play(r) == Fold(Fresh, r, r.acts)

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
Steps(q) == SelectSeq(q, LAMBDA e : e[1] = "step")
\* Each step once, in order; one outcome; a step only after its turn.
Ordered(r) == LET q == Steps(Flat(Play(r))) IN \A i \in DOMAIN q : q[i][2] = i
OneOutcome(r) == LET q == Flat(Play(r)) IN Cardinality({i \in DOMAIN q : q[i][1] \in {"success", "complete", "error"}}) <= 1
=============================================================================
