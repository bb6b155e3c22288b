--------------------------- MODULE MC_C15_cmp ---------------------------
(* Comparing two trees part by part, in any order: parts still to compare   *)
(* are kept, a difference ends it at once.                                  *)
EXTENDS JsonRef, FiniteSets
CONSTANT Shortest   \* TRUE: lists are compared as far as the first one goes
S(t) == <<"s", t>>
Leaves == {S("x"), S(""), <<"i", 0>>, <<"b", FALSE>>}
Lists == {<<"a", q>> : q \in {<<>>, <<S("x")>>, <<S("x"), S("")>>, <<S(""), S("x")>>}}
Small == Leaves \cup Lists
Maps == {<<"o", <<>>>>} \cup {<<"o", "a" :> v>> : v \in Small} \cup {<<"o", ("a" :> v) @@ ("b/c" :> w)>> : v \in Lists \cup {S("x")}, w \in Leaves}
Trees == Maps \cup {<<"o", "m" :> m>> : m \in {m \in Maps : DOMAIN m[2] # {"a", "b/c"}}}
VARIABLES a, b, todo, found
vars == <<a, b, todo, found>>
Init == a \in Trees /\ b \in Trees /\ todo = {<<>>} /\ found = "none"
At(x, t) == Walk(x, t)
Kids(x) == IF x[1] = "o" THEN DOMAIN x[2] ELSE IF x[1] = "a" THEN {ToString(i - 1) : i \in 1..Len(x[2])} ELSE {}
Part(t) ==
  LET x == At(a, t) y == At(b, t)
      same == x[1] = y[1] /\ (x[1] \in {"o"} => DOMAIN x[2] = DOMAIN y[2])
                          /\ (x[1] = "a" /\ ~Shortest => Len(x[2]) = Len(y[2]))
                          /\ (x[1] \notin {"o", "a"} => x = y)
  IN IF ~same THEN found' = PtrCompose(t, "") /\ todo' = {} /\ UNCHANGED <<a, b>>
     ELSE todo' = (todo \ {t}) \cup {Append(t, k) : k \in Kids(x)} /\ UNCHANGED <<a, b, found>>
Next == \E t \in todo : Part(t)
Spec == Init /\ [][Next]_vars
Right == todo = {} => (found = "none") = (a = b)
There == found # "none" => Walk(a, PtrSplit(found)) # Walk(b, PtrSplit(found))
=========================================================================
