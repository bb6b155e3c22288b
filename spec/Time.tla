------------------------------ MODULE Time ------------------------------
(* Dates, times and the ISO-8601 texts denoting them.                       *)
(* A moment is [y,m,d,h,i,s,u,o]: u microseconds, o the offset in minutes,  *)
(* or <<>> when the text carries none; a date is [y,m,d].                   *)
EXTENDS Text, Integers

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 30
ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..DaysIn(y, m)
NextDay(c) == IF c.d < DaysIn(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
              ELSE IF c.m < 12 THEN [c EXCEPT !.m = @ + 1, !.d = 1]
              ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
(* days since 1970-01-01, and back *)
Days(c) ==
  LET y == IF c.m <= 2 THEN c.y - 1 ELSE c.y
      era == y \div 400
      yoe == y - era * 400
      mp == (c.m + 9) % 12
      doy == ((153 * mp) + 2) \div 5 + c.d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]

(* ---- texts ---- *)
BAD == <<"bad">>        \* certainly not a date(-time)
OPEN == <<"open">>      \* not judged
Dig(t, i, n) == i + n - 1 <= Len(t) /\ AllDigits(SubSeq(t, i, i + n - 1))
N(t, i, n) == Num(SubSeq(t, i, i + n - 1))
DateShape(t) == Len(t) >= 10 /\ Dig(t, 1, 4) /\ Ch(t, 5) = "-" /\ Dig(t, 6, 2) /\ Ch(t, 8) = "-" /\ Dig(t, 9, 2)
ReadDate(t) == [y |-> N(t, 1, 4), m |-> N(t, 6, 2), d |-> N(t, 9, 2)]
Pow10 == <<1, 10, 100, 1000, 10000, 100000>>
Pad6(f) == Num(f) * Pow10[7 - Len(f)]
(* length of the digits starting at i *)
RECURSIVE DigLen(_, _)
DigLen(t, i) == IF i > Len(t) \/ Ch(t, i) \notin DigitSet THEN 0 ELSE 1 + DigLen(t, i + 1)
ReadOffset(t) ==     \* <<>> | <<minutes>> | BAD
  IF t = "" THEN <<"none">>
  ELSE IF t = "Z" THEN <<"at", 0>>
  ELSE IF Len(t) = 6 /\ Ch(t, 1) \in {"+", "-"} /\ Dig(t, 2, 2) /\ Ch(t, 4) = ":" /\ Dig(t, 5, 2) /\ N(t, 2, 2) < 24 /\ N(t, 5, 2) < 60
       THEN <<"at", (IF Ch(t, 1) = "-" THEN -1 ELSE 1) * (N(t, 2, 2) * 60 + N(t, 5, 2))>>
  ELSE BAD
Read(t) ==
  IF ~DateShape(t) THEN BAD
  ELSE LET c == ReadDate(t) IN
  IF ~ValidDate(c.y, c.m, c.d) THEN BAD
  ELSE IF Len(t) = 10 THEN <<"date", c>>
  ELSE IF Ch(t, 11) \in {"t", " "} THEN OPEN
  ELSE IF Ch(t, 11) # "T" \/ ~Dig(t, 12, 2) \/ Len(t) < 16 \/ Ch(t, 14) # ":" \/ ~Dig(t, 15, 2) THEN BAD
  ELSE LET h == N(t, 12, 2)
           i == N(t, 15, 2)
           withSec == Len(t) > 16 /\ Ch(t, 17) = ":"
           sl == IF withSec THEN DigLen(t, 18) ELSE 0
           s == IF sl = 2 THEN N(t, 18, 2) ELSE 0
           k == IF withSec THEN 18 + sl ELSE 17
           withFrac == withSec /\ k <= Len(t) /\ Ch(t, k) = "."
           fl == IF withFrac THEN DigLen(t, k + 1) ELSE 0
           u == IF fl > 0 THEN Pad6(SubSeq(t, k + 1, k + (IF fl > 6 THEN 6 ELSE fl))) ELSE 0   \* to the microsecond
           rest == From(t, IF withFrac THEN k + 1 + fl ELSE k)
           o == ReadOffset(rest)
       IN IF withSec /\ sl = 1 THEN OPEN
          ELSE IF withSec /\ sl # 2 THEN BAD
          ELSE IF withFrac /\ fl = 0 THEN BAD
          ELSE IF rest = "z" THEN OPEN
          ELSE IF o = BAD THEN BAD
          ELSE IF h = 24 \/ s = 60 THEN OPEN
          ELSE IF h > 24 \/ i > 59 \/ s > 60 THEN BAD
          ELSE <<"time", [y |-> c.y, m |-> c.m, d |-> c.d, h |-> h, i |-> i, s |-> s, u |-> u, o |-> IF o[1] = "none" THEN <<>> ELSE <<o[2]>>]>>
DateOf(x) == [y |-> x.y, m |-> x.m, d |-> x.d]
Midnight(c) == [y |-> c.y, m |-> c.m, d |-> c.d, h |-> 0, i |-> 0, s |-> 0, u |-> 0, o |-> <<>>]
(* a timestamp: days, seconds of the day, eighths of a second *)
Stamp(n, s, e) == LET c == Civil(n) IN [y |-> c.y, m |-> c.m, d |-> c.d, h |-> s \div 3600, i |-> (s \div 60) % 60, s |-> s % 60, u |-> e * 125000, o |-> <<>>]

(* ---- writing ---- *)
RECURSIVE PadTo(_, _)
PadTo(t, n) == IF Len(t) >= n THEN t ELSE PadTo("0" \o t, n)
P2(n) == PadTo(ToString(n), 2)
WriteDate(c) == PadTo(ToString(c.y), 4) \o "-" \o P2(c.m) \o "-" \o P2(c.d)
WriteOffset(o) == IF o = <<>> THEN "" ELSE LET a == IF o[1] < 0 THEN 0 - o[1] ELSE o[1] IN (IF o[1] < 0 THEN "-" ELSE "+") \o P2(a \div 60) \o ":" \o P2(a % 60)
WriteTime(x) == WriteDate(DateOf(x)) \o "T" \o P2(x.h) \o ":" \o P2(x.i) \o ":" \o P2(x.s) \o (IF x.u = 0 THEN "" ELSE "." \o PadTo(ToString(x.u), 6)) \o WriteOffset(x.o)
=========================================================================
