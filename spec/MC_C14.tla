---------------------------- MODULE MC_C14 ----------------------------
(* Design model: operations are collected one by one while scanning, in   *)
(* any order; lookups are answered from the collected set.                 *)
EXTENDS Lookup, Json
CONSTANTS Tags, Ids, MaxOps, Sep

OpSpace == {[tags |-> t, id |-> i, n |-> 0] :
              t \in {<<>>} \cup {<<a>> : a \in Tags} \cup {<<a, b>> : a \in {"a"}, b \in {"ba"}},
              i \in Ids \cup {""}}
VARIABLES ops
Init == ops = <<>>
Add  == /\ Len(ops) < MaxOps
        /\ ~Duplicate(Sep, ops)
        /\ \E o \in OpSpace : ops' = Append(ops, [o EXCEPT !.n = Len(ops) + 1])
Next == Add
Spec == Init /\ [][Next]_ops

Reqs == Ids \cup {t \o Sep \o i : t \in Tags, i \in Ids}
OneOf(S) == Cardinality(S) = 1

(* a full key finds its own operation unless the description is rejected *)
FullKey == Duplicate(Sep, ops) \/
  \A i \in 1..Len(ops) : \A k \in KeysOf(Sep, ops[i]) : Answer(Sep, ops, k) = [k |-> "op", n |-> i]
(* what is found has the requested name as its own last name *)
Sound == \A r \in Reqs : LET a == Answer(Sep, ops, r) IN
   a.k = "op" => LET p == Split(r, Sep) IN
       /\ ops[a.n].id = p[Len(p)]
       /\ Len(p) = 2 => p[1] \in Range(ops[a.n].tags)
(* the answer does not depend on the order of collection *)
Reversed == [i \in 1..Len(ops) |-> ops[Len(ops) + 1 - i]]
OrderFree == \A r \in Reqs : Answer(Sep, ops, r) = Answer(Sep, Reversed, r)
(* collecting an operation with another id and no shared key leaves full-key answers alone *)
Emit == PrintT(<<"@T@", ToJson(ops)>>)
=======================================================================
