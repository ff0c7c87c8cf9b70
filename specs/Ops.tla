-------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* What a module registers, the table it publishes, the bytes of that      *)
(* table, and the wasm file sections such a table can be kept in.          *)
(*                                                                         *)
(* An entry is [t, d, i, ns, op]: interaction type (1 request-response,    *)
(* 2 fire and forget, 3 stream, 4 channel), direction (1 export, 2         *)
(* import), index in 16-bit limbs, and two names, which are ropes.         *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

Magic == <<0, 119, 114, 115>>

---------------------------------------------------------------------------
(* The table as bytes *)
Name(r) == U16(RLen(r)) \o r
EncEntry(e) == U8(e.t) \o U8(e.d) \o Limbs(e.i) \o Name(e.ns) \o Name(e.op) \o U16(0)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Enc(ops) == Bs(Magic) \o U16(1) \o U32(Len(ops)) \o Cat([k \in 1..Len(ops) |-> EncEntry(ops[k])])

\* As another writer may write it, with reserved bytes behind each entry.
EncReserved(e) == U8(e.t) \o U8(e.d) \o Limbs(e.i) \o Name(e.ns) \o Name(e.op) \o U16(Len(e.res)) \o Bs(e.res)
EncAny(ops) == Bs(Magic) \o U16(1) \o U32(Len(ops)) \o Cat([k \in 1..Len(ops) |-> EncReserved(ops[k])])
Heading(ops, d) == SelectSeq(ops, LAMBDA e : e.d = d)
\* The index of the first entry with these names, if there is one.
Lookup(ops, a) == LET q == SelectSeq(ops, LAMBDA e : e.d = a.d /\ e.ns = a.ns /\ e.op = a.op)
                  IN IF q = <<>> THEN <<>> ELSE q[1].i

\* Bytes as a table: s is "ok", "bad", or "free" for entries of unknown kinds,
\* which may be handed over as they are or refused.
Two(q, p) == q[p] * 256 + q[p + 1]
Cut(q, p, n) == [k \in 1..n |-> <<0, q[p + k - 1]>>]
Bad == [s |-> "bad", ops |-> <<>>]
\* The end of the length-prefixed bytes at p, or 0 when they run past the end.
After(q, p) == IF p + 1 > Len(q) THEN 0
               ELSE IF p + 1 + Two(q, p) > Len(q) THEN 0 ELSE p + 2 + Two(q, p)
RECURSIVE Entries(_, _, _)
Entries(q, p, n) ==
  IF n = 0 THEN [s |-> "ok", ops |-> <<>>]
  ELSE IF p + 5 > Len(q) THEN Bad
  ELSE LET a == After(q, p + 6)
           b == IF a = 0 THEN 0 ELSE After(q, a)
           c == IF b = 0 THEN 0 ELSE After(q, b)
       IN IF c = 0 THEN Bad
          ELSE LET e == [t |-> q[p], d |-> q[p + 1], i |-> <<Two(q, p + 2), Two(q, p + 4)>>,
                         ns |-> Cut(q, p + 8, a - p - 8), op |-> Cut(q, a + 2, b - a - 2)]
                   r == Entries(q, c, n - 1)
               IN IF r.s = "bad" THEN Bad
                  ELSE [s |-> IF e.t \in 1..4 /\ e.d \in 1..2 THEN r.s ELSE "free", ops |-> <<e>> \o r.ops]
Parse(q) ==
  IF Len(q) < 10 THEN Bad
  ELSE IF SubSeq(q, 1, 4) # Magic \/ Two(q, 5) # 1 THEN Bad
  ELSE IF Two(q, 7) > 0 \/ Two(q, 9) * 12 > Len(q) THEN Bad
  ELSE Entries(q, 11, Two(q, 9))

Plain(r) == \A k \in 1..Len(r) : r[k][1] = 0
Lits(r) == [k \in 1..Len(r) |-> r[k][2]]

---------------------------------------------------------------------------
(* Registering *)
Types == 1..4
Fresh == [ex |-> [t \in Types |-> <<>>], im |-> [t \in Types |-> <<>>], n |-> 0]
Find(q, ns, op) == {k \in 1..Len(q) : q[k].ns = ns /\ q[k].op = op}
L16(n) == <<n \div 65536, n % 65536>>
ListOf(q, t, d) == [k \in 1..Len(q) |-> [t |-> t, d |-> d, i |-> L16(k - 1), ns |-> q[k].ns, op |-> q[k].op]]
Published(s) ==
  LET of(d) == Cat([t \in Types |-> ListOf(IF d = 1 THEN s.ex[t] ELSE s.im[t], t, d)])
  IN of(1) \o of(2)

\* Step(s, a) is the state afterwards and what is seen: the index of an import,
\* the number of the handler that is found (0: none), the entries that are
\* published in some order, the names that are listed.
Step(s, a) ==
  CASE a.a = "export" ->
         [s |-> [s EXCEPT !.n = @ + 1, !.ex[a.t] = Append(@, [ns |-> a.ns, op |-> a.op, h |-> s.n + 1])], out |-> 0]
    [] a.a = "import" ->
         (LET f == Find(s.im[a.t], a.ns, a.op)
          IN IF f # {} THEN [s |-> s, out |-> (CHOOSE k \in f : TRUE) - 1]
             ELSE [s |-> [s EXCEPT !.im[a.t] = Append(@, [ns |-> a.ns, op |-> a.op])], out |-> Len(s.im[a.t])])
    [] a.a = "get" ->
         [s |-> s, out |-> IF a.i[1] = 0 /\ a.i[2] < Len(s.ex[a.t]) THEN s.ex[a.t][a.i[2] + 1].h ELSE 0]
    [] OTHER -> [s |-> s, out |-> Published(s)]
RECURSIVE Runs(_, _)
Runs(s, p) == IF p = <<>> THEN <<>>
              ELSE LET r == Step(s, Head(p)) IN <<r.out>> \o Runs(r.s, Tail(p))

---------------------------------------------------------------------------
(* Sections of a wasm file: [id, name, body], the name only of custom ones. *)
RECURSIVE Leb(_)
Leb(n) == IF n < 128 THEN U8(n) ELSE U8(128 + (n % 128)) \o Leb(n \div 128)
Pre(r) == Leb(RLen(r)) \o r
Section(x) == U8(x.id) \o Pre(IF x.id = 0 THEN Pre(x.name) \o x.body ELSE x.body)
File(secs) == Bs(<<0, 97, 115, 109, 1, 0, 0, 0>>) \o Cat([k \in 1..Len(secs) |-> Section(secs[k])])
\* The last section of each wanted name (a file has at most one).
Wanted(secs, names) ==
  LET at(n) == {k \in 1..Len(secs) : secs[k].id = 0 /\ secs[k].name = n}
  IN [j \in 1..Len(names) |->
        IF at(names[j]) = {} THEN [has |-> FALSE, body |-> <<>>]
        ELSE [has |-> TRUE, body |-> secs[CHOOSE k \in at(names[j]) : TRUE].body]]

---------------------------------------------------------------------------
(* What is expected of a recorded case *)
Want(r) ==
  CASE r.op \in {"table", "module", "embed"} -> [q |-> Enc(r.ops)]
    [] r.op = "foreign" -> [q |-> EncAny(r.ops), canon |-> Enc(Heading(r.ops, 1) \o Heading(r.ops, 2)),
                            find |-> [k \in 1..Len(r.ask) |-> Lookup(r.ops, r.ask[k])]]
    [] r.op = "parse" -> Parse(r.q)
    [] r.op = "history" -> Runs(Fresh, r.p)
    [] r.op = "file" -> [q |-> File(r.secs), found |-> Wanted(r.secs, r.names)]
    [] OTHER -> 0

\* Reading what was published gives the table back.
TableThm(r) ==
  r.op \in {"table", "module"} =>
    ((\A k \in 1..Len(r.ops) : Plain(r.ops[k].ns) /\ Plain(r.ops[k].op)) =>
       LET p == Parse(Lits(Enc(r.ops))) IN p.s # "bad" /\ p.ops = r.ops)
\* Whatever is cut off the end, the rest is no table.
CutThm(r) ==
  r.op = "table" =>
    ((\A k \in 1..Len(r.ops) : Plain(r.ops[k].ns) /\ Plain(r.ops[k].op)) =>
       LET q == Lits(Enc(r.ops))
       IN Len(q) > 400 \/ \A n \in 0..Len(q) - 1 : Parse(SubSeq(q, 1, n)).s = "bad")
=============================================================================
