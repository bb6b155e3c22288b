----------------------------- MODULE MC_C11 -----------------------------
(* A response applied in pieces: a pile of header values, a status and a     *)
(* body kept apart; whatever the pieces and their order, it holds what the   *)
(* history of pieces says.                                                   *)
EXTENDS Response, Json
CONSTANT Steps
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Str == O([type |-> S("string")])
IntD == O([type |-> S("integer")])
DocWith(df) == O([swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]), host |-> S("h"),
          definitions |-> O([M |-> O([type |-> S("object"), properties |-> O([n |-> IntD])])]),
          responses |-> O([Shared |-> O([description |-> S(""), schema |-> Str, headers |-> O("X-N" :> Str)])]),
          paths |-> O("/a" :> O([get |-> O([operationId |-> S("o"), responses |-> O(("200" :> O([description |-> S(""), schema |-> O("$ref" :> S("#/definitions/M")), headers |-> O("X-N" :> IntD)]))
                                                                                @@ ("204" :> O([description |-> S("")])) @@ df)])]))])
Docs == {DocWith(<<>>), DocWith("default" :> O("$ref" :> S("#/responses/Shared")))}
VARIABLES doc, rawonly, hist, status, pile, body, data, dead
vars == <<doc, rawonly, hist, status, pile, body, data, dead>>
NORAW == <<"none">>
Bodies == {<<NORAW, NORAW>>, <<<<"raw", S("{\"n\": 1}")>>, <<"json", O([n |-> <<"i", 1>>])>>>>, <<<<"raw", S("\"x\"")>>, <<"json", S("x")>>>>, <<<<"raw", S("oops")>>, NORAW>>}
Heads == {<<>>, << <<"X-N", "5">> >>, << <<"x-n", "7">>, <<"X-N", "8">> >>, << <<"Content-Type", "text/plain">> >>, << <<"content-type", "application/JSON; charset=utf-8">>, <<"X-N", "z">> >>}
Pieces == [status : {"", "200", "204", "404"}, header : Heads, body : Bodies]
E(p) == [status |-> p.status, header |-> p.header, raw |-> p.body[1], json |-> p.body[2], text |-> IF p.body[1] = NORAW THEN NORAW ELSE p.body[1][2]]
Op == Oper(doc, "/a", "get")
Init == doc \in Docs /\ rawonly \in BOOLEAN /\ hist = <<>> /\ status = "" /\ pile = [n \in {"x-n", "content-type"} |-> <<>>] /\ body = NORAW /\ data = <<"n">> /\ dead = FALSE
(* by parts, as the pieces come *)
Step(p) ==
  LET st == IF p.status = "" THEN status ELSE p.status
      rs == MapField(Op, "responses")
      r == IF st \in DOMAIN rs THEN rs[st] ELSE IF "default" \in DOMAIN rs THEN MapField(doc, "responses")["Shared"] ELSE NONE
      decl == IF r = NONE \/ ~HasField(r, "headers") THEN "any" ELSE TextField(MapField(r, "headers")["X-N"], "type")
      fails == decl = "integer" /\ \E i \in 1..Len(p.header) : Lower(p.header[i][1]) = "x-n" /\ p.header[i][2] = "z"
      val(h) == IF Lower(h[1]) = "x-n" /\ decl = "integer" THEN <<"i", Num(h[2])>> ELSE S(h[2])
      add(n) == LET q == SelectSeq(p.header, LAMBDA x : Lower(x[1]) = n) IN [i \in 1..Len(q) |-> val(q[i])]
      pl == [n \in DOMAIN pile |-> pile[n] \o add(n)]
      plain == pl["content-type"] # <<>> /\ pl["content-type"][1] = S("text/plain")
      reads == p.body[1] # NORAW /\ r # NONE /\ HasField(r, "schema") /\ ~rawonly
      model == reads /\ HasField(Field(r, "schema"), "$ref")
      bad == \/ fails
             \/ p.body[1] # NORAW /\ st = ""
             \/ reads /\ ~plain /\ p.body[2] = NORAW
             \/ reads /\ model /\ (plain \/ (p.body[2][1] = "json" /\ p.body[2][2] = S("x")))
             \/ reads /\ ~model /\ ~plain /\ p.body[2][1] = "json" /\ p.body[2][2] # S("x")
  IN /\ hist' = Append(hist, E(p))
     /\ UNCHANGED <<doc, rawonly>>
     /\ IF bad THEN dead' = TRUE /\ UNCHANGED <<status, pile, body, data>>
        ELSE /\ dead' = FALSE /\ status' = st /\ pile' = pl
             /\ body' = (IF p.body[1] = NORAW THEN body ELSE p.body[1])
             /\ data' = (IF ~reads THEN data ELSE IF model THEN <<"M", [n |-> <<"i", 1>>]>> ELSE IF plain THEN p.body[1][2] ELSE S("x"))
Single == \A i \in 1..Len(hist) : hist[i].raw = NORAW          \* one body per response
Next == Len(hist) < Steps /\ ~dead /\ \E p \in Pieces : (p.body[1] = NORAW \/ Single) /\ Step(p)
Spec == Init /\ [][Next]_vars
RECURSIVE Play(_, _)
Play(x, h) == IF h = <<>> \/ x[1] # "next" THEN x ELSE Play(Applied(doc, Op, x[2], h[1]), Tail(h))
Right == LET x == TLCEval(Play(<<"next", [NoResponse EXCEPT !.rawonly = rawonly]>>, hist)) IN
         IF x[1] = "any" THEN TRUE
         ELSE IF dead THEN x[1] = "raise"
         ELSE /\ x[1] = "next" /\ x[2].status = status /\ x[2].raw = body
              /\ \A n \in DOMAIN pile : HeaderSeen(x[2].header, n) = pile[n]
              /\ x[2].data = data
Emit == hist = <<>> \/ (Len(hist) < Steps /\ ~dead) \/ PrintT(<<"@T@", ToJson([doc |-> doc, rawonly |-> rawonly, hist |-> hist])>>)
=========================================================================
