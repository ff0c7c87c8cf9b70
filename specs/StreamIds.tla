----------------------------- MODULE StreamIds -----------------------------
(***************************************************************************)
(* The ids given to new streams: Top is the largest number an id can be    *)
(* (2^31 - 1 in reality), odd ids belong to the client side, even to the   *)
(* server side, zero to nobody.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

First(side) == IF side = "client" THEN 1 ELSE 2
Last(side, top) == IF side = "client" THEN top ELSE top - 1
Succ(side, top, id) == IF id = Last(side, top) THEN First(side) ELSE id + 2
Cycle(side, top) == IF side = "client" THEN top \div 2 + 1 ELSE top \div 2

----------------------------------------------------------------------------
(* The generator *)
CONSTANTS Side, Top, Limit
VARIABLES last, n, given
vars == <<last, n, given>>
Init == last = 0 /\ n = 0 /\ given = <<>>
Give == /\ n < Limit /\ n' = n + 1
        /\ last' = IF last = 0 THEN First(Side) ELSE Succ(Side, Top, last)
        /\ given' = Append(given, [id |-> last', first |-> n < Cycle(Side, Top)])
Spec == Init /\ [][Give]_vars

NonZero == \A i \in 1..Len(given) : given[i].id \in 1..Top
Parity  == \A i \in 1..Len(given) : given[i].id % 2 = (IF Side = "client" THEN 1 ELSE 0)
Apart   == \A i, j \in 1..Len(given) : (i < j /\ j - i < Cycle(Side, Top)) => given[i].id # given[j].id
\* The first cycle is the time before every id has been given out.
Whole   == \A i \in 1..Len(given) :
             given[i].first = (Cardinality({given[j].id : j \in 1..i}) = i)
Ids == {k \in 1..Top : k % 2 = First(Side) % 2}
AllUsed == n >= Cycle(Side, Top) => {given[i].id : i \in 1..Len(given)} = Ids

----------------------------------------------------------------------------
(* Recorded runs, as segments of ids that ascend by 2 with the same        *)
(* first-cycle indication: [first id, how many, indication].               *)
\* From the very start:
Segments(side, top, k) ==
  LET c == Cycle(side, top) IN
  IF k <= c THEN << <<First(side), k, TRUE>> >>
  ELSE << <<First(side), c, TRUE>>, <<First(side), k - c, FALSE>> >>
FromStart(r) == r.segs = Segments(r.side, r.top, r.k)

\* Somewhere on the way: a segment ends at the last id, the next starts at the first.
SegEnd(s) == s[1] + 2 * (s[2] - 1)
OnTheWay(r) ==
  LET q == r.segs IN
  /\ Len(q) >= 1
  /\ \A i \in 1..Len(q) : /\ q[i][2] >= 1 /\ q[i][1] >= First(r.side)
                          /\ q[i][1] % 2 = First(r.side) % 2
                          /\ q[i][2] - 1 <= (Last(r.side, r.top) - q[i][1]) \div 2
  /\ \A i \in 1..Len(q) - 1 : /\ SegEnd(q[i]) = Last(r.side, r.top)
                              /\ q[i + 1][1] = First(r.side) /\ ~q[i + 1][3]
Sum(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i][2] IN f[Len(q)]

\* Given out to several callers at once, put in order by the recorder:
\* exactly the run that one caller would have got.
RunOk(r) == CASE r.kind = "start" -> FromStart(r)
              [] r.kind = "way" -> OnTheWay(r) /\ Sum(r.segs) = r.k
              [] r.kind = "many" -> FromStart(r)
              [] r.kind = "manyway" -> OnTheWay(r) /\ Sum(r.segs) = r.k
\* The segments of the specified generator are those it should have.
RECURSIVE Enc(_, _)
Enc(q, acc) == IF q = <<>> THEN acc
  ELSE LET h == Head(q)
           l == IF acc = <<>> THEN <<0, 0, FALSE>> ELSE acc[Len(acc)]
       IN IF acc # <<>> /\ l[3] = h.first /\ h.id = l[1] + 2 * l[2]
          THEN Enc(Tail(q), [acc EXCEPT ![Len(acc)] = <<l[1], l[2] + 1, l[3]>>])
          ELSE Enc(Tail(q), Append(acc, <<h.id, 1, h.first>>))
Encoded == (n > 0 /\ n <= 2 * Cycle(Side, Top)) => Enc(given, <<>>) = Segments(Side, Top, n)
=============================================================================
