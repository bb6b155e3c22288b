---------------------------- MODULE TraceC02 ----------------------------
(* One description loaded from several sources; the state is what the first  *)
(* source gave and what has been fetched since the last load.                *)
EXTENDS Loader, TraceBase
Empty(ses) == [seen |-> <<>>, log |-> <<>>, need |-> {}]
Docs(ses) == ses.docs
After(ses, x, e) ==
  CASE e.ev = "load" -> [seen |-> IF x.seen = <<>> /\ e.r.k = "ok" THEN <<e.app>> ELSE x.seen, log |-> e.log, need |-> {}]
    [] e.ev = "resolve" -> [x EXCEPT !.log = @ \o e.log, !.need = @ \cup NeededFor(ses.docs, e.ref, "Schema", ses.url)]
    [] OTHER -> x
FetchedRight(ses, e, log, asked) ==
  LET need == TLCEval({Hooked(e.hook, u) : u \in Needed(ses.docs, ses.url) \cup asked}) IN
  Clause("each document is fetched at most once", Once(log), "no repeats")
  \cup Clause("only the documents referred to are fetched, under their URL or the one the hook gives", \A i \in 1..Len(log) : log[i] \in need, need)
Verdict(ses, x, e) ==
  CASE e.ev = "load" ->
         Clause("a good description is loaded", e.r.k = "ok", "ok")
         \cup (IF e.r.k = "ok" /\ x.seen # <<>> THEN Clause("the same App from every source", e.app = x.seen[1], "the App of the first source") ELSE {})
         \cup (IF e.logged THEN FetchedRight(ses, e, e.log, {}) \cup Clause("the description itself is fetched", Len(e.log) > 0 /\ e.log[1] = Hooked(e.hook, ses.url), Hooked(e.hook, ses.url)) ELSE {})
    [] e.ev = "resolve" ->
         LET n == Designates(ses.docs, e.ref, ses.url) IN
         FetchedRight(ses, e, x.log \o e.log, x.need \cup NeededFor(ses.docs, e.ref, "Schema", ses.url))
         \cup (IF n = NONE THEN Clause("a reference to nothing is an error", e.r.k = "exc", "an exception")
               ELSE Clause("the object designated", e.r.k = "obj" /\ e.r.m = TextField(n, "description"), TextField(n, "description")))
    [] e.ev = "bad" -> Clause("a description that is not there, empty or of another version is an error", e.r.k = "exc" /\ ~(\E i \in 1..Len(e.r.c) : e.r.c[i] = "Hang"), "an exception")
    [] OTHER -> {"unknown event"}
=========================================================================
