----------------------------- MODULE MC_C20 -----------------------------
(* A traversal keeping a stack of places: pop one, visit it, push what is   *)
(* below.  Whatever the order, each object is visited once, under a pointer *)
(* that leads back to it, and nothing else is.                              *)
EXTENDS Swagger20, Json
O(r) == <<"o", r>>
S(t) == <<"s", t>>
Names == {"a/b", "~1", "", "items", "0"}
Leaf == O([description |-> S("x")])
Schemas == {Leaf, O([items |-> Leaf]), O([allOf |-> <<"a", <<Leaf, O([additionalProperties |-> Leaf])>>>>])}
           \cup {O([properties |-> O(n :> Leaf)]) : n \in Names} \cup {O([properties |-> O((n :> Leaf) @@ ("z" :> O([items |-> Leaf])))]) : n \in Names}
Docs == { O([swagger |-> S("2.0"), paths |-> O(<<>>), definitions |-> O((n :> s1) @@ ("~" :> s2))]) : n \in Names, s1 \in Schemas, s2 \in {Leaf, O([additionalProperties |-> Leaf])} }
VARIABLES doc, stack, seen
vars == <<doc, stack, seen>>
Init == doc \in Docs /\ stack = <<RootObj(doc)>> /\ seen = <<>>
Visit == /\ stack # <<>>
         /\ \E i \in 1..Len(stack) :
               /\ seen' = Append(seen, stack[i])
               /\ stack' = SubSeq(stack, 1, i - 1) \o SubSeq(stack, i + 1, Len(stack)) \o SetToSeq(Below(stack[i]))
         /\ UNCHANGED doc
Spec == Init /\ [][Visit]_vars
Once == \A i, j \in 1..Len(seen) : seen[i].ptr = seen[j].ptr => i = j
LeadsBack == \A i \in 1..Len(seen) : LET t == PtrSplit(seen[i].ptr) IN Walk(doc, Tail(t)) = seen[i].node
All == stack = <<>> => Range(seen) = Objects(doc)
Alphabet == {"~", "/", "0", "1", "a"}
Tokens == {""} \cup Alphabet \cup {a \o b : a \in Alphabet, b \in Alphabet} \cup {a \o b \o c : a \in Alphabet, b \in Alphabet, c \in Alphabet}
ASSUME \A t \in Tokens : UnTok(EscTok(t)) = t /\ ~Contains(EscTok(t), "/")
ASSUME \A s \in Alphabet, t \in Tokens : PtrSplit(PtrCompose(<<s, t>>, "#")) = <<"#", s, t>>
Emit == seen = <<>> => PrintT(<<"@T@", ToJson(doc)>>)
=========================================================================
