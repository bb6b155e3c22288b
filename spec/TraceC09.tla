---------------------------- MODULE TraceC09 ----------------------------
(* One call of an operation, and the request it made.                       *)
EXTENDS Request, TraceBase
Verdict(ses, x, e) ==
  CASE e.ev = "call" ->
         LET doc == ses.doc
             op == Oper(doc, e.path, e.m)
             ps == TLCEval(ParamsOf(doc, e.path, e.m))
             r == TLCEval(Place(MapField(doc, "definitions"), ps, e.args))
             pl == IF r[1] = "ok" THEN r[2] ELSE <<>>
             ct == IF r[1] = "ok" THEN ContentType(Inherited(doc, op, "consumes"), "", pl) ELSE ""
         IN IF r = ANY THEN {}
            ELSE IF r = ERR THEN Clause("an argument breaking its declaration must be refused", e.r.k = "exc", "an exception")
            ELSE IF r = BADCALL THEN Clause("a missing or unknown argument must be refused", e.r.k = "exc" /\ "ValueError" \in Range(e.r.c), "ValueError")
            ELSE IF ct = "!" THEN {}
            ELSE IF e.r.k = "exc" THEN {"this call must succeed: specified " \o ToString(pl)}
            ELSE LET o == e.r.v IN
                 Clause("query entries", SameEntries(ByName(o.query), pl.query), pl.query)
                 \cup Clause("header parameters", LET h == ByName(o.header) IN SameEntries(h, [n \in DOMAIN pl.header |-> <<pl.header[n]>>]), pl.header)
                 \cup Clause("path", PathFits(o.path, JoinBase(BasePathOf(doc), e.path), pl.path), <<JoinBase(BasePathOf(doc), e.path), pl.path>>)
                 \cup Clause("content type", o.ctype = ct, ct)
                 \cup Clause("body, form and files", BodyFits(o.body, ct, pl, e.files), <<pl.form, pl.file, pl.body>>)
                 \cup Clause("the order in which arguments are given does not matter", o.again, TRUE)
    [] e.ev = "kept" -> Clause("a call must not modify its arguments", e.before = e.after, e.before)
    [] e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] OTHER -> {"unknown event"}
=========================================================================
