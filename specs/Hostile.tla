------------------------------ MODULE Hostile ------------------------------
(***************************************************************************)
(* Any frames for an end that has requests under way. What can be decoded  *)
(* as a request for an operation is one; what cannot be decoded makes no   *)
(* difference to the rest, except that it can end a connection between     *)
(* processes. Afterwards there are still answers, both ways.               *)
(*                                                                         *)
(* A run has the engine, the bytes of each frame in raw, the streams under *)
(* way in live, the calls of handlers [t, op, data], the frames that were  *)
(* sent meanwhile [t, id], whether a later request of the peer and one of  *)
(* this end were answered (in, out) and whether the connection was closed. *)
(***************************************************************************)
EXTENDS Frames, FiniteSets
Count(t) == IF t = FNF THEN 3 ELSE 2        \* operations of a type

Failed(f) == "err" \in DOMAIN f
RECURSIVE All(_)
All(raw) == IF raw = <<>> THEN <<>>
            ELSE LET f == Decode(Head(raw)) IN
                 (IF Failed(f) THEN <<>> ELSE <<f>>) \o All(Tail(raw))
\* A frame of no known type is not an error to everybody.
Breaks(raw) == \E k \in DOMAIN raw : Failed(Decode(raw[k]))
\* What has to be looked at: all, or what comes before the connection ends.
Surely(r) == IF r.engine = "native" THEN UpToBad(r.raw).frames ELSE All(r.raw)

Named(f) == f.type \in Requests /\ RLen(f.md) >= 8
Op(f) == L32(f.md)
Known(f) == Named(f) /\ Op(f)[1] = 0 /\ Op(f)[2] < Count(f.type)
Asked(f) == [t |-> f.type, op |-> Op(f)[2], data |-> Merge(f.data)]
Told(c) == [c EXCEPT !.data = Merge(@)]

Times(q, c) == Cardinality({k \in DOMAIN q : Known(q[k]) /\ Asked(q[k]) = c})
Made(r, c) == Cardinality({k \in DOMAIN r.calls : Told(r.calls[k]) = c})
\* The first of several pieces need not be a request yet.
Whole(f) == ~f.foll
CallsOk(r) ==
  LET sure == SelectSeq(Surely(r), Whole)
      all == All(r.raw)
      wanted == {Asked(all[k]) : k \in {j \in DOMAIN all : Known(all[j])}}
  IN /\ \A k \in DOMAIN r.calls : Told(r.calls[k]) \in wanted
     /\ \A c \in wanted : Times(sure, c) <= Made(r, c) /\ Made(r, c) <= Times(all, c)

\* What is asked in vain is refused.
Refused(r) ==
  LET sure == Surely(r) IN
  \A k \in DOMAIN sure : (sure[k].type \in Requests /\ Whole(sure[k]) /\ ~Known(sure[k])) =>
    \E s \in DOMAIN r.sent : r.sent[s].t = ERROR /\ r.sent[s].id = sure[k].id
\* Nothing is sent that has nothing to do with what came.
Ids(r) == {HId(r.raw[k]) : k \in {j \in DOMAIN r.raw : RLen(r.raw[j]) >= 6}} \cup {r.live[k] : k \in DOMAIN r.live}
Related(r) == \A s \in DOMAIN r.sent : r.sent[s].id \in Ids(r)

GoesOn(r) == (r.engine # "native" \/ ~Breaks(r.raw)) => (r["in"] /\ r["out"] /\ ~r.closed)

HostileOk(r) == CallsOk(r) /\ (r.closed \/ Refused(r)) /\ Related(r) /\ GoesOn(r)
=============================================================================
