----------------------------- MODULE MC_C02 -----------------------------
(* Documents fetched on demand: whatever is asked for, and in whatever order,*)
(* with whatever hook, each document is fetched at most once and each answer *)
(* comes from the document the reference names.                              *)
EXTENDS Loader, Json
CONSTANT Steps
S(t) == <<"s", t>>
O(r) == <<"o", r>>
R(u) == O("$ref" :> S(u))
Root == "http://h/swagger.json"
A == "http://h/a.json"
B == "http://h/sub/b.json"
Base == [swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]), host |-> S("h"), paths |-> O(<<>>)]
Leafs == O([X |-> O([type |-> S("string"), description |-> S("a")]), Y |-> R("sub/b.json#/Z"), Q |-> O([properties |-> O([p |-> R("#/X")])])])
Bs == O([Z |-> O([type |-> S("string"), description |-> S("b")]), W |-> R("../a.json#/X")])
Docs == (Root :> O([definitions |-> O([L |-> R("a.json#/X"), M |-> R("a.json#/Y"), N |-> R("sub/b.json#/W"), K |-> R("#/definitions/L")])] @@ Base)) @@ (A :> Leafs) @@ (B :> Bs)
Hooks == {<<>>, (A :> "http://mirror/1"), (Root :> "http://mirror/0") @@ (B :> "http://mirror/2")}
Asked == {"a.json#/X", "a.json#/Q", "sub/b.json#/Z", "#/definitions/M", "http://h/a.json#/Y"}
VARIABLES hook, kept, log, hist, answers
vars == <<hook, kept, log, hist, answers>>
(* fetch u and all it needs; depth first in some order *)
RECURSIVE Fetch(_, _, _)
Fetch(k, g, todo) == IF todo = {} THEN <<k, g>>
                     ELSE LET u == CHOOSE x \in todo : TRUE IN
                          IF u \in k THEN Fetch(k, g, todo \ {u}) ELSE Fetch(k \cup {u}, Append(g, Hooked(hook, u)), todo \ {u})
Init == hook \in Hooks /\ kept = {} /\ log = <<>> /\ hist = <<>> /\ answers = <<>>
Prepare == /\ hist = <<>>
           /\ LET f == TLCEval(Fetch({}, <<>>, Needed(Docs, Root))) IN kept' = f[1] /\ log' = f[2]
           /\ hist' = <<"prepare">> /\ UNCHANGED <<hook, answers>>
Ask(r) == /\ hist # <<>> /\ Len(hist) <= Steps
          /\ LET f == TLCEval(Fetch(kept, log, NeededFor(Docs, r, "Schema", Root))) IN kept' = f[1] /\ log' = f[2]
          /\ hist' = Append(hist, r)
          /\ answers' = Append(answers, Designates(Docs, r, Root))
          /\ UNCHANGED hook
Next == Prepare \/ (\E r \in Asked : Ask(r))
Spec == Init /\ [][Next]_vars
AtMostOnce == Once(log)
AsHooked == {log[i] : i \in 1..Len(log)} = {Hooked(hook, u) : u \in kept}
Answers == \A i \in 1..Len(answers) : answers[i] # NONE
Emit == IF hist = <<>> THEN PrintT(<<"@T@", ToJson([docs |-> Docs])>>)
        ELSE Len(hist) < Steps + 1 \/ PrintT(<<"@T@", ToJson([hook |-> hook, hist |-> Tail(hist)])>>)
=========================================================================
