---------------------------- MODULE TraceC10 ----------------------------
(* One call sent through each of the bundled clients.                       *)
EXTENDS Wire, TraceBase
Verdict(ses, x, e) ==
  CASE e.ev = "sent" ->
         LET doc == ses.doc
             r == TLCEval(Place(MapField(doc, "definitions"), ParamsOf(doc, e.path, e.m), e.args))
         IN IF r[1] # "ok" THEN {}
            ELSE LET want == TLCEval(WantedRequest(doc, ses.url, e.path, e.m, r[2], e.opt)) IN
            IF want.unclaimed THEN {} ELSE
            UNION {LET o == e.rs[i].r
                       bad == IF want.refused THEN Clause("this request must be refused", o.k = "exc" /\ o.sent = 0, "an exception, and nothing sent")
                              ELSE IF o.k = "exc" THEN {"this request must be sent: specified " \o ToString(want)}
                              ELSE Judge(o.w, want, e.files)
                   IN {e.rs[i].client \o " " \o b : b \in bad} : i \in 1..Len(e.rs)}
            \cup Clause("the clients send the same request",
                        want.refused \/ Cardinality({IF e.rs[i].r.k = "exc" \/ "scheme" \notin DOMAIN e.rs[i].r.w THEN "none" ELSE e.rs[i].r.w.scheme : i \in 1..Len(e.rs)}) = 1, "one scheme")
    [] e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] OTHER -> {"unknown event"}
=========================================================================
