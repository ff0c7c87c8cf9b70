------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Converting values, absent values and errors. A case is [fn, has, v,     *)
(* err, bad]: what is converted ("" when absent), the error of what        *)
(* produced it ("" for none), and whether the conversion itself fails on   *)
(* this value. The result is [v, has, err].                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Failed(e) == [v |-> "", has |-> FALSE, err |-> e]
Absent == [v |-> "", has |-> FALSE, err |-> ""]
Value(v) == [v |-> v, has |-> TRUE, err |-> ""]

Converted(r) ==
  CASE r.err # "" -> Failed(r.err)
    [] ~r.has -> Absent
    [] r.bad -> Failed("conversion")
    [] OTHER -> Value(r.v)

---------------------------------------------------------------------------
(* Times as text: RFC 3339 with as much of the fraction as is not zero.    *)
(* A time is [day, sec, nano, off]: days since 1970-01-01 and seconds in   *)
(* UTC, and minutes east of UTC.                                           *)
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Num(_, _)
Num(n, w) == IF w = 0 THEN "" ELSE Num(n \div 10, w - 1) \o Dig[(n % 10) + 1]

\* The civil date of a day number, by counting in eras of 400 years from March 1st.
Civil(day) ==
  LET z   == day + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp  == (5 * doy + 2) \div 153
      d   == doy - (153 * mp + 2) \div 5 + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]

RECURSIVE Frac(_, _)
Frac(n, w) == IF n % 10 = 0 /\ w > 1 THEN Frac(n \div 10, w - 1) ELSE Num(n, w)

\* The fraction at least w digits wide, and the zone: both have more than one form in what is read.
Stamp(t, w, zulu) ==
  LET local == t.sec + t.off * 60
      day   == t.day + local \div 86400
      sec   == local % 86400
      c     == Civil(day)
      o     == IF t.off < 0 THEN -t.off ELSE t.off
  IN Num(c.y, 4) \o "-" \o Num(c.m, 2) \o "-" \o Num(c.d, 2) \o "T"
     \o Num(sec \div 3600, 2) \o ":" \o Num((sec \div 60) % 60, 2) \o ":" \o Num(sec % 60, 2)
     \o (IF w > 0 THEN "." \o Num(t.nano, 9) ELSE IF t.nano = 0 THEN "" ELSE "." \o Frac(t.nano, 9))
     \o (IF t.off = 0 /\ zulu THEN "Z" ELSE (IF t.off < 0 THEN "-" ELSE "+") \o Num(o \div 60, 2) \o ":" \o Num(o % 60, 2))
Text(t) == Stamp(t, 0, TRUE)

\* Days follow each other.
NextDay(t) ==
  LET a == Civil(t.day)  b == Civil(t.day + 1)
      long == {1, 3, 5, 7, 8, 10, 12}
      leap == (a.y % 4 = 0 /\ a.y % 100 # 0) \/ a.y % 400 = 0
      days == IF a.m \in long THEN 31 ELSE IF a.m # 2 THEN 30 ELSE IF leap THEN 29 ELSE 28
  IN b = IF a.d < days THEN [a EXCEPT !.d = @ + 1] ELSE IF a.m < 12 THEN [y |-> a.y, m |-> a.m + 1, d |-> 1] ELSE [y |-> a.y + 1, m |-> 1, d |-> 1]

Want(r) ==
  IF r.op = "time" THEN [text |-> Text(r.t), alt |-> Stamp(r.t, 9, FALSE), res |-> Absent]
  ELSE [text |-> "", alt |-> "", res |-> Converted(r)]
Calendar(r) == r.op = "time" => NextDay(r.t)
=============================================================================
