-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Modules that are loaded one after the other, from files that can change *)
(* between loads, and where calls of the operations they name arrive.      *)
(*                                                                         *)
(* A load is [file, ex, im]: ex and im are sequences of [t, n, i], the     *)
(* interaction type, the full name and the module's own index of each      *)
(* exported and imported operation.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Exports(m, t, n) == {m.ex[j].i : j \in {k \in 1..Len(m.ex) : m.ex[k].t = t /\ m.ex[k].n = n}}
Exporters(loads, t, n) == {k \in 1..Len(loads) : Exports(loads[k], t, n) # {}}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Replaced(loads, k) == \E j \in k + 1..Len(loads) : loads[j].file = loads[k].file

\* Where a call arrives: the load and the indices it can name there. When the
\* last exporter was replaced by a version without the operation, nothing is said.
Dest(loads, t, n) ==
  LET S == Exporters(loads, t, n)
  IN IF S = {} THEN [s |-> "none", k |-> 0, i |-> {}]
     ELSE LET k == Max(S) IN
          [s |-> IF Replaced(loads, k) THEN "free" ELSE "to", k |-> k, i |-> Exports(loads[k], t, n)]

\* What a module calls its import i of type t; "" when it imports no such thing.
Imported(m, t, i) == {m.im[j].n : j \in {k \in 1..Len(m.im) : m.im[k].t = t /\ m.im[k].i = i}}
Via(loads, k, t, i) ==
  LET S == Imported(loads[k], t, i)
  IN IF S = {} THEN [s |-> "none", k |-> 0, i |-> {}]
     ELSE IF Cardinality(S) > 1 THEN [s |-> "free", k |-> 0, i |-> {}]
     ELSE Dest(loads, t, CHOOSE n \in S : TRUE)

RECURSIVE Runs(_, _)
Runs(loads, p) ==
  IF p = <<>> THEN <<>>
  ELSE LET a == Head(p) IN
       CASE a.a = "load" -> << [s |-> "load", k |-> Len(loads) + 1, i |-> {}] >> \o Runs(Append(loads, a.m), Tail(p))
         [] a.a = "call" -> << Dest(loads, a.t, a.n) >> \o Runs(loads, Tail(p))
         [] a.a = "via" -> << Via(loads, a.k, a.t, a.i) >> \o Runs(loads, Tail(p))
         [] OTHER -> << [s |-> "", k |-> 0, i |-> {}] >> \o Runs(loads, Tail(p))
Want(r) == Runs(<<>>, r.p)

---------------------------------------------------------------------------
(* Calls while modules are loaded. A recorded run has the loads, each with *)
(* the moments it began and ended, and calls with the moments they were    *)
(* made and returned and where they arrived (k = 0: not_found).            *)
\* Loads do not overlap. A call sees all loads that ended before it began,
\* and any further ones that began before it ended.
CallOk(loads, c) ==
  LET sure == {k \in 1..Len(loads) : loads[k].to < c.from}
      may  == {k \in 1..Len(loads) : loads[k].from < c.to}
      n    == Cardinality(sure)
  IN \E j \in n..Cardinality(may) :
       LET d == Dest(SubSeq(loads, 1, j), c.t, c.n)
       IN CASE d.s = "none" -> c.k = 0
            [] d.s = "free" -> TRUE
            [] OTHER -> c.k = d.k /\ c.i \in d.i
RunOk(r) == \A j \in 1..Len(r.calls) : CallOk(r.loads, r.calls[j])
=============================================================================
