---------------------------- MODULE TraceC12 ----------------------------
(* Histories of calls, credentials and replies on one App; the state is the  *)
(* credentials provided last: everything else is forgotten between calls.    *)
EXTENDS Session, TraceBase
Nothing(ses) == [n \in {ses.secs[i] : i \in 1..Len(ses.secs)} |-> <<>>]
After(ses, x, e) == IF e.ev = "provide" /\ Providable(ses.doc, e.name) THEN [x EXCEPT ![e.sec] = (e.name :> e.cred) @@ @] ELSE x
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] e.ev = "provide" -> {}
    [] e.ev = "description" -> Clause("the API description is left alone", e.kept[1] = e.kept[2], "unchanged")
    [] e.ev = "sent" -> {e.client \o " " \o b : b \in Sent(ses.doc, ses.url, x, e)}
                        \cup Clause("arguments, options and headers given are left alone", e.kept[1] = e.kept[2], e.kept[1])
                        \cup Clause("the response of the pair is returned", e.r.k # "ok" \/ e.own, TRUE)
    [] OTHER -> {"unknown event"}
=========================================================================
