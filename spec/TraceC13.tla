---------------------------- MODULE TraceC13 ----------------------------
(* Observed histories of providing credentials and sending calls.  The state *)
(* holds, per security object, what was provided last.                       *)
EXTENDS Security, TraceBase
Nothing(ses) == [n \in {ses.secs[i] : i \in 1..Len(ses.secs)} |-> <<>>]
After(ses, x, e) == IF e.ev = "provide" /\ Providable(ses.doc, e.name) THEN [x EXCEPT ![e.sec] = (e.name :> e.cred) @@ @] ELSE x
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] e.ev = "provide" -> IF Providable(ses.doc, e.name) THEN Clause("providing a credential must succeed", e.r.k = "ok", "ok")
                           ELSE Clause("a credential for an undeclared scheme or of an unsupported type is a ValueError", e.r.k = "exc" /\ "ValueError" \in Range(e.r.c), "ValueError")
    [] e.ev = "sent" ->
         LET doc == ses.doc
             r == TLCEval(Place(MapField(doc, "definitions"), ParamsOf(doc, e.path, e.m), e.args))
         IN IF r[1] # "ok" THEN {}
            ELSE LET want == TLCEval(WantedRequest(doc, ses.url, e.path, e.m, r[2], e.opt))
                     cs == TLCEval(IF e.sec = "" THEN {} ELSE Carried(doc, Oper(doc, e.path, e.m), x[e.sec]))
                 IN IF want.unclaimed \/ want.refused THEN {}
                    ELSE IF e.r.k = "exc" THEN {"this request must be sent: specified ok"}
                    ELSE {e.client \o " " \o b : b \in JudgeCreds(e.r.w, want, cs)}
    [] OTHER -> {"unknown event"}
=========================================================================
