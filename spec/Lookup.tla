---------------------------- MODULE Lookup ----------------------------
(* Operation and model lookup by scoped name.                             *)
(* An operation is [tags |-> seq, id |-> name or "", n |-> number].        *)
EXTENDS Text

Compose(sep, names) == Join(names, sep)

(* every name under which an operation is registered *)
KeysOf(sep, o) == IF o.id = "" THEN {}
                  ELSE IF o.tags = <<>> THEN {o.id}
                  ELSE {t \o sep \o o.id : t \in Range(o.tags)}

Duplicate(sep, ops) == \E i, j \in 1..Len(ops) :
                          i < j /\ KeysOf(sep, ops[i]) \cap KeysOf(sep, ops[j]) # {}

Matches(sep, key, req) == key = req \/ EndsWith(key, sep \o req)

(* the numbers of the operations that match a request, an exact key winning *)
Found(sep, ops, req) ==
  LET exact == {i \in 1..Len(ops) : req \in KeysOf(sep, ops[i])}
      some  == {i \in 1..Len(ops) : \E k \in KeysOf(sep, ops[i]) : Matches(sep, k, req)}
  IN IF exact # {} THEN exact ELSE some

Answer(sep, ops, req) ==
  LET F == Found(sep, ops, req) IN
  IF F = {} THEN [k |-> "exc", c |-> "KeyError"]
  ELSE IF Cardinality(F) > 1 THEN [k |-> "exc", c |-> "ValueError"]
  ELSE [k |-> "op", n |-> ops[CHOOSE i \in F : TRUE].n]
=======================================================================
