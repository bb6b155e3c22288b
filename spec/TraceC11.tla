---------------------------- MODULE TraceC11 ----------------------------
(* Responses applied step by step (ses.path, ses.m: the operation), and      *)
(* responses read through clients.                                           *)
EXTENDS Response, TraceBase
Start1(ses) == <<"next", NoResponse>>
TheOp(ses, e) == Oper(ses.doc, e.path, e.m)
After(ses, x, e) ==
  CASE e.ev = "new" -> <<"next", [NoResponse EXCEPT !.rawonly = e.rawonly]>>
    [] e.ev = "reset" -> IF x[1] = "next" THEN <<"next", [NoResponse EXCEPT !.rawonly = x[2].rawonly]>> ELSE x
    [] e.ev = "apply" -> IF x[1] # "next" THEN x ELSE TLCEval(Applied(ses.doc, TheOp(ses, e), x[2], e))
    [] OTHER -> x
Fresh0(x) == [NoResponse EXCEPT !.rawonly = x]
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] e.ev = "new" -> Clause("a fresh response is empty", Matches(e.o, Fresh0(FALSE)) = {}, "empty")
    [] e.ev = "reset" -> IF x[1] # "next" THEN {} ELSE Clause("a response reset is empty", Matches(e.o, Fresh0(FALSE)) = {}, "empty")
    [] e.ev = "apply" ->
         IF x[1] # "next" THEN {}
         ELSE LET w == TLCEval(Applied(ses.doc, TheOp(ses, e), x[2], e)) IN
              CASE w[1] = "any" -> {}
                [] w[1] = "raise" -> Clause("this response cannot be read", e.r.k = "exc", "an exception")
                [] OTHER -> IF e.r.k = "exc" THEN {"this response must be read: specified " \o ToString(w[2])} ELSE Matches(e.o, w[2])
    [] e.ev = "got" ->       \* through a client: the same, in one step; only the headers the server added on purpose are compared
         LET w == TLCEval(Applied(ses.doc, TheOp(ses, e), Fresh0(e.rawonly), e)) IN
         {e.client \o " " \o b : b \in
              CASE w[1] = "any" -> {}
                [] w[1] = "raise" -> Clause("this response cannot be read", e.r.k = "exc", "an exception")
                [] OTHER -> IF e.r.k = "exc" THEN {"this response must be read: specified " \o ToString(w[2])} ELSE Matches(e.o, w[2])}
    [] OTHER -> {"unknown event"}
=========================================================================
