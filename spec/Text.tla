---------------------------- MODULE Text ----------------------------
(* Text as the rest of the specification uses it: strings with indexing   *)
(* (TLC evaluates Len, SubSeq and \o on strings).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i)         == SubSeq(s, i, i)
From(s, i)       == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i)       == IF i < 1 THEN "" ELSE SubSeq(s, 1, i)
StartsWith(s, p) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ From(s, Len(s) - Len(p) + 1) = p
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
MinOf(S)         == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S)         == CHOOSE x \in S : \A y \in S : x >= y
Occurs(s, p)     == {k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p}
Find(s, p)       == FindFrom(s, p, 1)
FindLast(s, p)   == LET I == Occurs(s, p) IN IF I = {} THEN 0 ELSE MaxOf(I)
Contains(s, p)   == Occurs(s, p) # {}

RECURSIVE Split(_, _)
Split(s, sep) == LET k == Find(s, sep)
                 IN IF k = 0 THEN <<s>>
                    ELSE <<Upto(s, k - 1)>> \o Split(From(s, k + Len(sep)), sep)

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN ""
                ELSE IF Len(q) = 1 THEN q[1]
                ELSE q[1] \o sep \o Join(Tail(q), sep)

Replace(s, a, b) == Join(Split(s, a), b)

UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCase == "abcdefghijklmnopqrstuvwxyz"
Digits    == "0123456789"
CharSet(s) == {Ch(s, i) : i \in 1..Len(s)}
DigitSet  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowMap    == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) == IF i > Len(s) THEN ""
                   ELSE LET c == Ch(s, i)
                        IN (IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c) \o LowerFrom(s, i + 1)
Lower(s)  == LowerFrom(s, 1)

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
RECURSIVE NumFrom(_, _, _)
NumFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, acc * 10 + DigitVal(Ch(s, i)))
Num(s)    == NumFrom(s, 1, 0)

Blank == {" ", "\t", "\n"}
RECURSIVE StripL(_)
StripL(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN StripL(From(s, 2)) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # "" /\ Ch(s, Len(s)) \in Blank THEN StripR(Upto(s, Len(s) - 1)) ELSE s
Strip(s)  == StripL(StripR(s))

(* generic sequence helpers *)
Range(q)      == {q[i] : i \in 1..Len(q)}
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE qq[1] \o Flat(Tail(qq))
MapSeq(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(q, 1, Len(q) - 1)) IN
                 IF q[Len(q)] \in Range(r) THEN r ELSE Append(r, q[Len(q)])
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Has(r, k)     == k \in DOMAIN r
Get(r, k, d)  == IF k \in DOMAIN r THEN r[k] ELSE d
=====================================================================
