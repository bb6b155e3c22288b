----------------------------- MODULE MC_C12 -----------------------------
(* Pairs that keep their parts in containers of their own, written to while  *)
(* a call is prepared and read back when it is sent: with everything reset   *)
(* first, whatever happened before leaves no trace.                          *)
EXTENDS Session, Json
CONSTANT Steps
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Arr(q) == <<"a", q>>
Par(n, loc, t) == O([name |-> S(n), type |-> S(t)] @@ ("in" :> S(loc)) @@ (IF loc = "path" THEN [required |-> <<"b", TRUE>>] ELSE <<>>))
Resp == O("200" :> O([description |-> S(""), schema |-> O([type |-> S("integer")]), headers |-> O("X-N" :> O([type |-> S("integer")]))])
          @@ "default" :> O([description |-> S(""), schema |-> O([type |-> S("string")])]))
Doc == O([swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]), host |-> S("h"), schemes |-> Arr(<<S("https"), S("http")>>),
          securityDefinitions |-> O([k |-> O([type |-> S("apiKey"), name |-> S("X-Key")] @@ ("in" :> S("header"))),
                                     q |-> O([type |-> S("apiKey"), name |-> S("key")] @@ ("in" :> S("query")))]),
          security |-> Arr(<<O([k |-> Arr(<<>>), q |-> Arr(<<>>)])>>),
          paths |-> O("/g/{p}" :> O([get |-> O([operationId |-> S("g"), responses |-> Resp, parameters |-> Arr(<<Par("p", "path", "string"), Par("q", "query", "string"), Par("X-H", "header", "string")>>)])])
                      @@ "/f" :> O([post |-> O([operationId |-> S("f"), responses |-> Resp, consumes |-> Arr(<<S("application/x-www-form-urlencoded")>>), produces |-> Arr(<<S("application/json"), S("text/plain")>>),
                                               parameters |-> Arr(<<Par("a", "formData", "string"), Par("q", "query", "string")>>)])]))])
Pairs == {[pair |-> 1, path |-> "/g/{p}", m |-> "get", args |-> [p |-> S("a/b"), q |-> S("x")] @@ ("X-H" :> S("h"))],
          [pair |-> 2, path |-> "/f", m |-> "post", args |-> [a |-> S("1 2")]],
          [pair |-> 3, path |-> "/g/{p}", m |-> "get", args |-> [p |-> S("c")]]}
NoOpt == [scheme |-> "", consume |-> "", produce |-> "", netloc |-> "", urlscheme |-> ""]
Opts == {NoOpt, [NoOpt EXCEPT !.scheme = "http"], [NoOpt EXCEPT !.netloc = "n:1", !.urlscheme = "http"], [NoOpt EXCEPT !.produce = "text/plain"], [NoOpt EXCEPT !.produce = "image/png"]}
Replies == {[status |-> "200", header |-> <<<<"Content-Type", "application/json">>, <<"X-N", "3">>>>, raw |-> "7"],
            [status |-> "404", header |-> <<<<"Content-Type", "application/json">>>>, raw |-> "\"no\""],
            [status |-> "200", header |-> <<<<"Content-Type", "application/json">>>>, raw |-> "{bad"]}
Creds == {<<"k", "k1">>, <<"k", "k2">>, <<"q", "q1">>}

VARIABLES creds, box, hist, seen, expect
vars == <<creds, box, hist, seen, expect>>
(* what a pair is made of *)
Place1(p) == Place(<<>>, ParamsOf(Doc, p.path, p.m), p.args)[2]
Fresh(p) == [scheme |-> "", netloc |-> "", header |-> Place1(p).header, query |-> Place1(p).query, accept |-> "", got |-> <<>>]
Init == creds = <<>> /\ box = [i \in 1..3 |-> <<"nothing">>] /\ hist = <<>> /\ seen = <<"nothing">> /\ expect = <<"nothing">>
Provide(c) == /\ creds' = (c[1] :> S(c[2])) @@ creds
              /\ hist' = Append(hist, [do |-> "provide", name |-> c[1], cred |-> S(c[2])])
              /\ seen' = <<"nothing">> /\ expect' = <<"nothing">> /\ UNCHANGED box
(* prepare in the containers b of the pair, with the credentials given, whatever b holds *)
Prepared(b, p, o) ==
  LET op == Oper(Doc, p.path, p.m)
      want == WantedRequest(Doc, "http://h/swagger.json", p.path, p.m, Place1(p), o)
      cs == Carried(Doc, op, creds)
      H == {c \in cs : c[1] = "header"}
      Q == {c \in cs : c[1] = "query"}
      at(C, n) == (CHOOSE c \in C : c[2] = n)[3]
      b1 == [b EXCEPT !.scheme = (IF want.refused THEN @ ELSE @ \o (CHOOSE s \in want.schemes : TRUE)), !.netloc = want.netloc,
                      !.header = [n \in {c[2] : c \in H} |-> at(H, n)] @@ @,
                      !.query = [n \in {c[2] : c \in Q} \cup DOMAIN @ |-> (IF n \in DOMAIN @ THEN @[n] ELSE <<>>) \o (IF n \in {c[2] : c \in Q} THEN <<at(Q, n)>> ELSE <<>>)]]
  IN IF want.refused THEN <<"refused", b1>> ELSE <<"sent", [b1 EXCEPT !.accept = want.accept]>>
Send(p, o, a) ==
  LET b == Fresh(p)     \* reset, whatever box[p.pair] holds
      r == TLCEval(Prepared(b, p, o))
      got == [r[2] EXCEPT !.got = Append(@, <<a.status, a.raw>>)]
  IN /\ box' = [box EXCEPT ![p.pair] = <<"used", IF r[1] = "sent" THEN got ELSE r[2]>>]
     /\ seen' = IF r[1] = "sent" THEN <<"sent", got>> ELSE <<"refused">>
     /\ expect' = <<p, o, a>>
     /\ hist' = Append(hist, [do |-> "send", pair |-> p.pair, path |-> p.path, m |-> p.m, args |-> p.args, opt |-> o, status |-> a.status, header |-> a.header, raw |-> a.raw])
     /\ UNCHANGED creds
Next == Len(hist) < Steps /\ ((\E c \in Creds : Provide(c)) \/ (\E p \in Pairs : \E o \in Opts : \E a \in Replies : (o = NoOpt \/ a.raw = "7") /\ Send(p, o, a)))
Spec == Init /\ [][Next]_vars
(* what a pair never used before, on an App never used before, would have sent with these credentials *)
NothingLeaks ==
  seen[1] = "sent" =>
    LET p == expect[1]
        o == expect[2]
        op == Oper(Doc, p.path, p.m)
        want == WantedRequest(Doc, "http://h/swagger.json", p.path, p.m, Place1(p), o)
        cs == Carried(Doc, op, creds)
        b == seen[2]
    IN /\ b.scheme \in want.schemes /\ b.netloc = want.netloc /\ b.accept = want.accept
       /\ DOMAIN b.header = DOMAIN Place1(p).header \cup {c[2] : c \in {x \in cs : x[1] = "header"}}
       /\ DOMAIN b.query = DOMAIN Place1(p).query \cup {c[2] : c \in {x \in cs : x[1] = "query"}}
       /\ \A n \in DOMAIN b.query : \A c \in cs : c[1] = "query" /\ c[2] = n => b.query[n] = <<c[3]>>
       /\ \A c \in cs : c[1] = "header" => b.header[c[2]] = c[3]
       /\ b.got = <<<<expect[3].status, expect[3].raw>>>>
Refused == seen[1] # "nothing" => (seen[1] = "refused" <=> expect[2].produce = "image/png" /\ expect[1].path = "/f")
Emit == IF hist = <<>> THEN PrintT(<<"@T@", ToJson([doc |-> Doc])>>)
        ELSE Len(hist) < Steps \/ hist[Len(hist)].do # "send" \/ PrintT(<<"@T@", ToJson([hist |-> hist])>>)
=========================================================================
