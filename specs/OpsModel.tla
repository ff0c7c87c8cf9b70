------------------------------ MODULE OpsModel ------------------------------
(***************************************************************************)
(* The registrations as a machine: every history of a few calls.           *)
(***************************************************************************)
EXTENDS Ops
CONSTANTS Kinds, Names, Limit
VARIABLES st, hist
vars == <<st, hist>>
N(x) == Bs(x)
Acts == {[a |-> x, t |-> t, ns |-> N(n[1]), op |-> N(n[2])] : x \in {"export", "import"}, t \in Kinds, n \in Names}
Init == st = Fresh /\ hist = <<>>
Next == /\ Len(hist) < Limit
        /\ \E a \in Acts : LET r == Step(st, a) IN
             st' = r.s /\ hist' = Append(hist, [a |-> a, out |-> r.out])
Spec == Init /\ [][Next]_vars

Of(x, t) == SelectSeq(hist, LAMBDA h : h.a.a = x /\ h.a.t = t)
\* Exports are numbered in the order of their registration.
Numbered == \A t \in Types :
  LET q == Of("export", t) IN
  /\ Len(q) = Len(st.ex[t])
  /\ \A k \in 1..Len(q) : st.ex[t][k].ns = q[k].a.ns /\ st.ex[t][k].op = q[k].a.op
\* Equal names get equal indices, different names different ones, without gaps.
Imported == \A t \in Types :
  LET q == Of("import", t) IN
  /\ \A j, k \in 1..Len(q) : (q[j].out = q[k].out) = (q[j].a.ns = q[k].a.ns /\ q[j].a.op = q[k].a.op)
  /\ {q[k].out : k \in 1..Len(q)} = 0..Len(st.im[t]) - 1
\* Every operation is published once, under its own index.
Once == LET p == Published(st) IN
  /\ \A j, k \in 1..Len(p) : j # k => <<p[j].t, p[j].d, p[j].i>> # <<p[k].t, p[k].d, p[k].i>>
  /\ \A k \in 1..Len(p) : p[k].d = 1 => LET e == st.ex[p[k].t][p[k].i[2] + 1] IN e.ns = p[k].ns /\ e.op = p[k].op
  /\ Len(p) = Cardinality({k \in 1..Len(hist) : hist[k].a.a = "export"})
              + Cardinality({<<hist[k].a.t, hist[k].out>> : k \in {j \in 1..Len(hist) : hist[j].a.a = "import"}})
ReadsBack == LET p == Published(st) r == Parse(Lits(Enc(p))) IN r.s = "ok" /\ r.ops = p
=============================================================================
