----------------------------- MODULE MC_C19 -----------------------------
(* A mapping kept the way an implementation would (an association list       *)
(* searched ignoring case) agrees with its history; headers combined one     *)
(* after another agree with the declarative account.                         *)
EXTENDS Headers, Json
CONSTANTS Steps, Customs
Keys == {"X-A", "x-a", "Y"}
Values == {"1", "2"}
VARIABLES mode, store, hist, req, cus, form, join, left, acc
vars == <<mode, store, hist, req, cus, form, join, left, acc>>
Pairs == {<<k, v>> : k \in {"X-A", "x-a", "Z"}, v \in {"1", "2"}}
Seqs(n) == UNION {[1..k -> Pairs] : k \in 0..n}
Reqs == {<<>>, << <<"X-A", "0">> >>, << <<"Y", "0">> >>, << <<"X-A", "0">>, <<"Y", "9">> >>}
Init == /\ store = <<>> /\ hist = <<>> /\ acc = <<>>
        /\ \/ mode = "map" /\ req = <<>> /\ cus = <<>> /\ form = "none" /\ join = FALSE /\ left = <<>>
           \/ /\ mode = "compose" /\ req \in Reqs /\ cus \in Seqs(Customs) /\ form \in {"list", "dict"} /\ join \in BOOLEAN
              /\ form = "dict" => \A i, j \in 1..Len(cus) : i # j => cus[i][1] # cus[j][1]
              /\ left = req \o cus
(* --- the mapping --- *)
Idx(k) == {i \in 1..Len(store) : Lower(store[i][1]) = Lower(k)}
Set(k, v) == /\ store' = IF Idx(k) = {} THEN Append(store, <<k, v>>) ELSE [store EXCEPT ![CHOOSE i \in Idx(k) : TRUE] = <<k, v>>]
             /\ hist' = Append(hist, <<"set", k, v>>)
Remove(k) == /\ store' = SelectSeq(store, LAMBDA x : Lower(x[1]) # Lower(k))
             /\ hist' = Append(hist, <<"del", k, "">>)
MapStep == /\ mode = "map" /\ Len(hist) < Steps
           /\ (\E k \in Keys, v \in Values : Set(k, v)) \/ (\E k \in Keys : Remove(k))
           /\ UNCHANGED <<mode, req, cus, form, join, left, acc>>
RECURSIVE Past(_, _)
Past(h, k) == IF h = <<>> THEN <<>>
              ELSE LET e == h[Len(h)] IN
                   IF Lower(e[2]) # Lower(k) THEN Past(SubSeq(h, 1, Len(h) - 1), k)
                   ELSE IF e[1] = "del" THEN <<>> ELSE <<e[2], e[3]>>
RECURSIVE Play(_, _)
Play(m, h) == IF h = <<>> THEN m ELSE Play(IF h[1][1] = "set" THEN Put(m, h[1][2], h[1][3]) ELSE Del(m, h[1][2]), Tail(h))
MapRight == mode = "map" => LET m == Play(<<>>, hist) IN
              /\ Range(store) = Entries(m) /\ Len(store) = Cardinality(DOMAIN m)
              /\ \A k \in Keys : IF Past(hist, k) = <<>> THEN ~Holds(m, k) ELSE Holds(m, k) /\ m[Lower(k)] = Past(hist, k)
(* --- combining --- *)
Join1(q, h) == LET I == {i \in 1..Len(q) : Lower(q[i][1]) = Lower(h[1])} IN
               IF I = {} THEN Append(q, h) ELSE [q EXCEPT ![CHOOSE i \in I : TRUE] = <<h[1], @[2] \o "," \o h[2]>>]
Combine == /\ mode = "compose" /\ left # <<>>
           /\ acc' = (IF join THEN Join1(acc, left[1]) ELSE Append(acc, left[1]))
           /\ left' = Tail(left)
           /\ UNCHANGED <<mode, store, hist, req, cus, form, join>>
ComposeRight == mode = "compose" /\ left = <<>> => Composed(acc, req, cus, join, FALSE) /\ (join => Composed(acc, req, cus, TRUE, TRUE))
Next == MapStep \/ Combine
Spec == Init /\ [][Next]_vars
Emit == \/ mode = "map" /\ (Len(hist) < Steps \/ PrintT(<<"@T@", ToJson([mode |-> "map", hist |-> hist])>>))
        \/ mode = "compose" /\ (acc # <<>> \/ left = <<>> \/ PrintT(<<"@T@", ToJson([mode |-> "compose", req |-> req, cus |-> cus, form |-> form, join |-> join])>>))
=========================================================================
