----------------------------- MODULE MC_C13 -----------------------------
(* Credentials provided, replaced and applied to requests that are sent      *)
(* again: a request prepared anew each time, with credentials put into its   *)
(* own header and query containers, carries exactly what is specified.       *)
EXTENDS Security, Json
CONSTANT Steps
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Arr(q) == <<"a", q>>
Req(N) == O([n \in N |-> Arr(<<>>)])
Ok == O("default" :> O([description |-> S("")]))
Par(n, loc) == O([name |-> S(n), type |-> S("string")] @@ ("in" :> S(loc)))
Op(id, sec) == [operationId |-> S(id), responses |-> Ok, parameters |-> Arr(<<Par("X-Key", "header"), Par("q", "query")>>)] @@ sec
Doc == O([swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]), host |-> S("h"),
          security |-> Arr(<<Req({"k"})>>),
          securityDefinitions |-> O([b |-> O([type |-> S("basic")]),
                                     k |-> O([type |-> S("apiKey"), name |-> S("X-Key")] @@ ("in" :> S("header"))),
                                     q |-> O([type |-> S("apiKey"), name |-> S("key")] @@ ("in" :> S("query"))),
                                     o |-> O([type |-> S("oauth2"), flow |-> S("implicit"), authorizationUrl |-> S("http://h/auth"), scopes |-> O([r |-> S("")])])]),
          paths |-> O("/n" :> O([get |-> O(Op("none", [security |-> Arr(<<>>)]))]) @@ "/i" :> O([get |-> O(Op("inh", <<>>))])
                      @@ "/bq" :> O([get |-> O(Op("bq", [security |-> Arr(<<Req({"b"}), Req({"q"})>>)]))]) @@ "/all" :> O([get |-> O(Op("all", [security |-> Arr(<<Req({"b", "k"}), Req({"o", "q"})>>)]))]))])
Paths == {"/n", "/i", "/bq", "/all"}
Names == {"b", "k", "q", "o"}
CredsOf(n) == IF n = "b" THEN {Arr(<<S("u"), S("p:1")>>), Arr(<<S("v"), S("")>>)} ELSE {S(n \o "1"), S(n \o "/2")}
Args == [q |-> S("x")]
Pl(p) == Place(<<>>, ParamsOf(Doc, p, "get"), Args)[2]
VARIABLES given, reqs, hist, sent
vars == <<given, reqs, hist, sent>>
Start0(p) == [header |-> Pl(p).header, query |-> Pl(p).query]
Init == given = <<>> /\ reqs = [p \in Paths |-> Start0(p)] /\ hist = <<>> /\ sent = <<"nothing">>
Provide(n, c) == /\ given' = (n :> c) @@ given
                 /\ hist' = Append(hist, <<"provide", n, ToJson(c)>>) /\ sent' = <<"nothing">> /\ UNCHANGED reqs
(* one after another, into the containers of the request *)
RECURSIVE Apply(_, _)
Apply(r, ns) == IF ns = <<>> THEN r
                ELSE LET c == Credential(Doc, ns[1], given[ns[1]])
                     IN Apply(IF c[1] = "header" THEN [r EXCEPT !.header = (c[2] :> c[3]) @@ @] ELSE [r EXCEPT !.query = (c[2] :> <<c[3]>>) @@ @], Tail(ns))
Send(p) == LET r == Apply(Start0(p), SetToSeq(RequiredBy(Doc, Oper(Doc, p, "get")) \cap DOMAIN given)) IN
           /\ reqs' = [reqs EXCEPT ![p] = r]
           /\ sent' = <<"sent", p, r>>
           /\ hist' = Append(hist, <<"send", p, "">>)
           /\ UNCHANGED given
Next == Len(hist) < Steps /\ ((\E n \in Names : \E c \in CredsOf(n) : Provide(n, c)) \/ (\E p \in Paths : Send(p)))
Spec == Init /\ [][Next]_vars
Last(n) == LET I == {i \in 1..Len(hist) : hist[i][1] = "provide" /\ hist[i][2] = n} IN IF I = {} THEN "" ELSE hist[MaxOf(I)][3]
Right == sent[1] = "sent" =>
           LET cs == Carried(Doc, Oper(Doc, sent[2], "get"), given) IN
           /\ \A c \in cs : c[1] = "header" => sent[3].header[c[2]] = c[3]
           /\ \A c \in cs : c[1] = "query" => sent[3].query[c[2]] = <<c[3]>>
           /\ DOMAIN sent[3].header = DOMAIN Pl(sent[2]).header \cup {c[2] : c \in {x \in cs : x[1] = "header"}}
           /\ DOMAIN sent[3].query = DOMAIN Pl(sent[2]).query \cup {c[2] : c \in {x \in cs : x[1] = "query"}}
Latest == \A n \in DOMAIN given : ToJson(given[n]) = Last(n)
NoOther == sent[1] = "sent" /\ sent[2] = "/n" => sent[3] = Start0("/n")
Emit == IF hist = <<>> THEN PrintT(<<"@T@", ToJson([doc |-> Doc, hist |-> <<>>])>>)
        ELSE Len(hist) < Steps \/ hist[Len(hist)][1] # "send" \/ PrintT(<<"@T@", ToJson([hist |-> hist])>>)
=========================================================================
