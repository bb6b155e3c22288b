----------------------------- MODULE Session -----------------------------
(* Everything a user of one App does: providing credentials, making calls,   *)
(* sending pairs (again and again, through any client), and what must then   *)
(* be on the wire and in the response.  Nothing but the credentials provided *)
(* last is remembered: each answer is a function of the description, the     *)
(* call and the reply.                                                       *)
EXTENDS Security
RS == INSTANCE Response

(* headers given to the client along with the call: names of their own *)
IsGiven(custom, n) == \E i \in 1..Len(custom) : Lower(custom[i][1]) = Lower(n)
Without(w, custom) == [w EXCEPT !.headers = SelectSeq(@, LAMBDA h : ~IsGiven(custom, h[1]))]
GivenSent(w, custom) == \A i \in 1..Len(custom) : HeaderVals(w.headers, Lower(custom[i][1])) = <<Strip(custom[i][2])>>

(* what a sent call must look like: {} or the clauses broken *)
Sent(doc, url, creds, e) ==
  LET r == TLCEval(Place(MapField(doc, "definitions"), ParamsOf(doc, e.path, e.m), e.args)) IN
  IF r[1] # "ok" THEN {}
  ELSE LET want == TLCEval(WantedRequest(doc, url, e.path, e.m, r[2], e.opt))
           op == Oper(doc, e.path, e.m)
           cs == TLCEval(IF e.sec = "" THEN {} ELSE Carried(doc, op, creds[e.sec]))
           resp == TLCEval(RS!Applied(doc, op, RS!NoResponse, e.reply))
       IN IF want.unclaimed THEN {}
          ELSE IF want.refused THEN (IF e.r.k = "exc" /\ e.r.sent = 0 THEN {} ELSE {"this request must be refused: specified an exception, and nothing sent"})
          ELSE IF e.r.k = "exc" /\ e.r.sent = 0 THEN {"this request must be sent: specified " \o ToString(want)}
          ELSE LET wire == e.w
                   onwire == IF DOMAIN wire = {"sent"} THEN {"exactly one request must be sent: specified 1 request"}
                             ELSE {b \in Judge(Without(wire, e.custom), want, e.files) : ~StartsWith(b, "headers:") /\ ~StartsWith(b, "query:")}
                                  \cup JudgeCreds(Without(wire, e.custom), want, cs)
                                  \cup (IF GivenSent(wire, e.custom) THEN {} ELSE {"headers given: specified " \o ToString(e.custom)})
                   read == CASE resp[1] = "any" -> {}
                             [] resp[1] = "raise" -> (IF e.r.k = "exc" THEN {} ELSE {"this response cannot be read: specified an exception"})
                             [] OTHER -> IF e.r.k = "exc" THEN {"this response must be read: specified " \o ToString(resp[2])}
                                         ELSE {"response " \o b : b \in RS!Matches(e.o, resp[2])}
               IN onwire \cup read
=========================================================================
