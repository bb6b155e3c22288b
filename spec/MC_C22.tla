----------------------------- MODULE MC_C22 -----------------------------
(* A calendar advancing day by day over leap and century years, with moments *)
(* written on each day: writing and reading are inverse, and the day number  *)
(* behind timestamps is right on every day.                                  *)
EXTENDS Time, Json, TLC
Starts == { [y |-> 1999, m |-> 12, d |-> 1], [y |-> 1899, m |-> 12, d |-> 25], [y |-> 2023, m |-> 12, d |-> 30], [y |-> 1, m |-> 1, d |-> 1], [y |-> 1969, m |-> 12, d |-> 20], [y |-> 9999, m |-> 11, d |-> 28] }
Clocks == { <<0, 0, 0>>, <<23, 59, 59>>, <<12, 30, 5>> }
Fracs == {0, 1, 120000, 999999, 100}
Offs == { <<>>, <<0>>, <<330>>, <<-210>>, <<-30>>, <<1439>> }
Span == 430
VARIABLES c, n, steps
vars == <<c, n, steps>>
Init == c \in Starts /\ n = Days(c) /\ steps = 0
Next == steps < Span /\ c.y < 10000 /\ c' = NextDay(c) /\ n' = n + 1 /\ steps' = steps + 1
Spec == Init /\ [][Next]_vars
DayNumbers == Days(c) = n /\ Civil(n) = c
At(k, u, o) == [y |-> c.y, m |-> c.m, d |-> c.d, h |-> k[1], i |-> k[2], s |-> k[3], u |-> u, o |-> o]
Inverse == c.y < 10000 => /\ Read(WriteDate(c)) = <<"date", c>>
                         /\ \A k \in Clocks, u \in Fracs, o \in Offs : Read(WriteTime(At(k, u, o))) = <<"time", At(k, u, o)>>
NoneOther == c.d = DaysIn(c.y, c.m) => Read(WriteDate([c EXCEPT !.d = @ + 1])) = BAD
Pick == (steps + c.y) % 7
Emit == c.y > 9999 \/ LET k == CHOOSE x \in Clocks : x[1] = <<0, 23, 12, 0, 23, 12, 0>>[Pick + 1]
                          u == <<0, 1, 120000, 999999, 100, 0, 5>>[Pick + 1]
                          o == <<<<>>, <<0>>, <<330>>, <<-210>>, <<-30>>, <<1439>>, <<>> >>[(steps % 7) + 1]
                      IN PrintT(<<"@T@", ToJson([t |-> WriteTime(At(k, u, o)), d |-> WriteDate(c), bad |-> IF c.d = DaysIn(c.y, c.m) THEN WriteDate([c EXCEPT !.d = @ + 1]) ELSE ""])>>)
=========================================================================
