------------------------------- MODULE Clock -------------------------------
(* Time text, clocks and unit conversions (C19).  A 64-bit number is its sign and the codes of its
   digits, 19 of them, because TLC's integers have 32 bits.
   State: the time zone (seconds east of Greenwich) and the last reading of the steady clock. *)
EXTENDS Common

Init0 == [off |-> 0, last |-> <<>>]
Z(n) == [i \in 1 .. n |-> 48]
Sign(neg) == IF neg THEN <<45>> ELSE <<>>
Dot == <<46>>
IsZero(d) == \A i \in 1 .. Len(d) : d[i] = 48

NsText(neg, d) == Sign(neg) \o d
SecText(neg, d) == Sign(neg) \o SubSeq(d, 1, 10) \o Dot \o SubSeq(d, 11, 19)

(* ---- calendar ---- *)
(* whole days and the second within the day of the second count whose digits are given *)
RECURSIVE DivMod(_, _, _, _, _)
DivMod(d, i, by, q, r) ==
  IF i > Len(d) THEN <<q, r>>
  ELSE LET x == r * 10 + (d[i] - 48) IN DivMod(d, i + 1, by, q * 10 + x \div by, x % by)
DaysSecs(d, off) ==
  LET g == DivMod(SubSeq(d, 1, 10), 1, 86400, 0, 0)
      s == g[2] + off
  IN <<g[1] + s \div 86400, s % 86400>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearLen(y) == IF Leap(y) THEN 366 ELSE 365
(* days from 1970-01-01 to the first of January of a year *)
DaysTo(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 1969 \div 4) - ((y - 1) \div 100 - 1969 \div 100) + ((y - 1) \div 400 - 1969 \div 400)
YearOf(n) == LET g == 1970 + n \div 366 IN CHOOSE y \in g - 1 .. g + 3 : DaysTo(y) <= n /\ n < DaysTo(y + 1)
RECURSIVE MonthDay(_, _, _)
MonthDay(y, m, n) == IF n < MonthLen(y, m) THEN <<m, n + 1>> ELSE MonthDay(y, m + 1, n - MonthLen(y, m))
D2(n) == ZeroPad(Dec(n), 2)
Calendar(n, s) ==
  LET y == YearOf(n)
      md == MonthDay(y, 1, n - DaysTo(y))
  IN ZeroPad(Dec(y), 4) \o <<45>> \o D2(md[1]) \o <<45>> \o D2(md[2]) \o <<32>>
       \o D2(s \div 3600) \o <<58>> \o D2((s \div 60) % 60) \o <<58>> \o D2(s % 60)
DateText(d, off) ==
  LET ds == DaysSecs(d, off) IN Calendar(ds[1], ds[2]) \o Dot \o SubSeq(d, 11, 13)

(* the text as far as it fits *)
Rendered(e, text) ==
  /\ e.ret = OK
  /\ IF e.n = 0 THEN e.kept ELSE e.term /\ e.out = Head2(text, e.n - 1)

(* ---- conversions: a factor of 1000, a million or a thousand million ---- *)
Shift(d, z) == SubSeq(d, z + 1, Len(d)) \o Z(z)
Drop(d, z) == Z(z) \o SubSeq(d, 1, Len(d) - z)
Converted(e) ==
  LET v == IF e.tons THEN Shift(e.x, e.z) ELSE Drop(e.x, e.z)
  IN (e.tons => IsZero(SubSeq(e.x, 1, e.z))) => e.v = v /\ (e.neg = (e.xneg /\ ~IsZero(v)))

Ns9(n) == ZeroPad(Dec(n), 9)
Agrees(st, e) ==
  CASE Injected(e) /\ e.op \in {"TmNs", "TmSec", "TmDate"} -> e.ret = ERROR
    [] e.op = "TmNs" -> Rendered(e, NsText(e.neg, e.d))
    [] e.op = "TmSec" -> Rendered(e, SecText(e.neg, e.d))
    [] e.op = "TmDate" -> e.neg \/ Rendered(e, DateText(e.d, st.off))
    [] e.op = "TmNull" -> e.ok
    [] e.op = "TmNow" ->
         /\ e.ret = OK /\ ~e.neg
         /\ CmpBytes(e.b, e.v) <= 0 /\ CmpBytes(e.v, e.a) <= 0
         /\ (e.steady /\ st.last # <<>> => CmpBytes(st.last, e.v) <= 0)
    [] e.op = "TmScript" ->
         ~e.used \/
         (IF e.fails \/ e.past THEN e.ret = ERROR
          ELSE e.ret = OK /\ ~e.neg /\ e.v = SubSeq(e.sec, 10, 19) \o Ns9(e.nsec))
    [] e.op = "TmConv" -> Converted(e)
    [] OTHER -> TRUE
Step(st, e) ==
  IF ~(LedgerOk(e) /\ e.raw = 0 /\ e.calls = 0 /\ Agrees(st, e)) THEN {}
  ELSE {CASE e.op = "TmTz" -> [st EXCEPT !.off = e.off]
          [] e.op = "TmNow" /\ e.steady -> [st EXCEPT !.last = e.v]
          [] OTHER -> st}
Ops == {"TmNs", "TmSec", "TmDate", "TmNull", "TmTz", "TmNow", "TmScript", "TmConv"}
=============================================================================
