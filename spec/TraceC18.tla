---------------------------- MODULE TraceC18 ----------------------------
(* Sessions: documents' definitions, declarations rendered under options.   *)
EXTENDS Render, TraceBase
Init18(ses) == "nothing"
Seen(ses, e) == ses.decls[e.d + 1]
OptOf(ses, e) == ses.opts[e.o + 1]
Verdict18(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] e.ev = "render" ->
        LET d == Seen(ses, e)
            o == OptOf(ses, e)
        IN IF ~TLCEval(Renders(ses.defs, d, o)) THEN {}
           ELSE IF e.r.k # "val" THEN {"there are values to be rendered"}
           ELSE Clause("the rendered value satisfies what it is rendered for", Sat(ses.defs, d, e.r.v, o), d)
                \cup Clause("the rendered value is accepted", DOMAIN o.tmpl = {} => e.conv.k = "ok", "ok")
    [] e.ev = "all" ->
        LET ps == TLCEval(e.params)
            o == OptOf(ses, e)
        IN IF ~(\A i \in 1..Len(ps) : TextField(ps[i], "name") \in DOMAIN e.tmpl \cup Range(e.exclude) \/ Renders(ses.defs, DeclOf(ps[i]), o)) THEN {}
           ELSE IF e.r.k # "val" THEN {"there are parameters to be rendered"}
           ELSE Clause("the rendered parameters satisfy the operation", SatAll(ses.defs, ps, e.r.v, e.exclude, e.tmpl, e.minp, e.maxp, o), ps)
                \cup Clause("the operation accepts the rendered parameters", (DOMAIN o.tmpl = {} /\ \A i \in 1..Len(ps) : IsTrue(ps[i], "required") => TextField(ps[i], "name") \notin Range(e.exclude)) => e.call.k = "ok", "ok")
    [] e.ev = "kept" -> Clause("options are not changed by rendering", e.before = e.after, e.before)
    [] OTHER -> {"unknown event"}
=========================================================================
