------------------------------ MODULE ClockMC ------------------------------
(* The calendar of Clock against a calendar which counts one day at a time, the layout of the
   texts, and the conversions, on every small input. *)
EXTENDS Clock, Json
CONSTANTS DAYS, EMIT
VARIABLES n, y, m, d
vars == <<n, y, m, d>>
(* walks through the days from 1969-12-01 *)
Init == n = -31 /\ y = 1969 /\ m = 12 /\ d = 1
Next ==
  /\ n < DAYS
  /\ n' = n + 1
  /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ UNCHANGED y
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars
CalendarRight ==
  /\ YearOf(n) = y
  /\ MonthDay(y, 1, n - DaysTo(y)) = <<m, d>>
  /\ Len(Calendar(n, 86399)) = 19
(* digits of a number of seconds, and back *)
Digits10(k) == ZeroPad(Dec(k), 10) \o Z(9)
DivRight == n >= 0 /\ n < 24000 => \A s \in {0, 1, 43200, 86399} : \A off \in {0, -3600, 50400} :
  LET x == DaysSecs(Digits10(n * 86400 + s), off) IN x[1] * 86400 + x[2] = n * 86400 + s + off /\ x[2] \in 0 .. 86399
(* conversions are exact: there and back is the identity, back and there drops the remainder *)
Exact == n >= 0 => \A z \in {3, 6, 9} : LET x == ZeroPad(Dec(n), 19) IN
  /\ Drop(Shift(x, z), z) = x
  /\ Shift(Drop(x, z), z) = SubSeq(x, 1, 19 - z) \o Z(z)
Monotonic == [][n >= 0 => CmpBytes(DateText(Digits10((n % 20000) * 86400), 0), DateText(Digits10((n % 20000) * 86400 + 1), 0)) < 0]_vars
=============================================================================
