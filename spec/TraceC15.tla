---------------------------- MODULE TraceC15 ----------------------------
(* What dump() gives, before and after preparing, again and again, and what  *)
(* compare() says of two loaded descriptions.                               *)
EXTENDS Dump, TraceBase
Root15(ses) == ses.docs[ses.url]
Init15(ses) == [first |-> NONE]
After15(ses, x, e) == IF e.ev = "dump" /\ e.r.k = "ok" THEN [first |-> e.got] ELSE x
Ok(e, set) == IF e.r.k # "ok" THEN {"dump and compare must succeed: specified success"} ELSE set
Verdict(ses, x, e) ==
  CASE e.ev = "load" -> Clause("a good description is loaded and prepared", e.r.k = "ok", "ok")
    [] e.ev = "raw" -> Ok(e, Clause("a raw dump declares what was loaded", Declares("Swagger", ses.url, e.got) = Declares("Swagger", ses.url, Root15(ses)), Declares("Swagger", ses.url, Root15(ses)))
                             \cup Clause("a dump invents nothing", Unknown(e.got) = {}, {}))
    [] e.ev = "dump" -> Ok(e, LET d == WithRoot(ses.docs, ses.url, e.got)
                                  os == OpsOf(ses.docs, ses.url)
                                  w == Rest(Declares("Swagger", ses.url, Root15(ses)))
         IN Clause("a dump declares what was loaded", Rest(Declares("Swagger", ses.url, e.got)) = w, w)
            \cup Clause("a dump has the operations there are", OpsOf(d, ses.url) = os, os)
            \cup Clause("a dump invents nothing", Unknown(e.got) = {}, {})
            \cup UNION {LET a == TLCEval(Assembled(ses.docs, ses.url, o[1], o[2])) IN
                        Clause("a dumped operation means what was loaded", SameOp(a, Assembled(d, ses.url, o[1], o[2])), <<o, a>>)
                        \cup Clause("the fields of a dumped operation", OwnOp(ses.docs, ses.url, o) = OwnOp(d, ses.url, o), <<o, OwnOp(ses.docs, ses.url, o)>>) : o \in os \cap OpsOf(d, ses.url)})
    [] e.ev = "again" -> Ok(e, Clause("the dump does not change by using the App", e.got = x.first, x.first))
    [] e.ev = "reload" -> Ok(e, Clause("the dump of a reloaded dump is the same", e.got = x.first, x.first)
                                \cup Clause("a reloaded dump compares equal", e.same, TRUE))
    [] e.ev = "cmp" -> Ok(e, LET a == TLCEval(Declares("Swagger", ses.url, Root15(ses)))
                                 b == TLCEval(Declares("Swagger", ses.url, e.other))
         IN Clause("two descriptions compare equal iff they declare the same", e.same = (a = b), a = b)
            \cup (IF e.same \/ a = b THEN {} ELSE Clause("a difference is where compare says", Differs(a, b, e.at), "a place that differs")))
    [] OTHER -> {"unknown event"}
=========================================================================
