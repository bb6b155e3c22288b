---------------------------- MODULE TraceC04 ----------------------------
(* The operations of a prepared description, as seen through the App.         *)
EXTENDS Assembled, TraceBase
Paths04(ses) == DOMAIN MapField(ses.docs[ses.url], "paths")
Init04(ses) == TLCEval(UNION {LET i == TLCEval(ItemOf(ses.docs, ses.url, p)) IN {<<p, m>> : m \in MethodsOf(i)} : p \in Paths04(ses)})
Bag(q) == {<<x, Cardinality({i \in 1..Len(q) : q[i] = x})>> : x \in Range(q)}
OwnFieldsSeen == <<"operationId", "summary", "description", "tags", "deprecated">>
Named(q) == {TextField(q[i], "name") : i \in 1..Len(q)}
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("a good description is prepared", e.r.k = "ok", "ok")
    [] e.ev = "ops" -> Clause("the operations there are", Range(e.ops) = x /\ Len(e.ops) = Cardinality(x), x)
    [] e.ev = "op" ->
         IF <<e.path, e.m>> \notin x THEN {"an operation that is not in the description: specified none"} ELSE
         LET w == TLCEval(Assembled(ses.docs, ses.url, e.path, e.m))
         IN IF e.r.k # "ok" THEN {"an operation that cannot be read: specified one"} ELSE
            Clause("the method", e.o.method = w.method, w.method)
            \cup Clause("the path", e.o.path = w.path, w.path)
            \cup Clause("the base path", e.o.base = w.base, w.base)
            \cup Clause("the URL", e.o.url = w.url, w.url)
            \cup Clause("consumes", e.o.consumes = w.consumes, w.consumes)
            \cup Clause("produces", e.o.produces = w.produces, w.produces)
            \cup Clause("schemes", e.o.schemes = w.schemes, w.schemes)
            \cup Clause("security", e.o.security = w.security, w.security)
            \cup Clause("parameters", Bag(e.o.params) = Bag(w.params), w.params)
            \cup Clause("responses", e.o.responses = w.responses, w.responses)
            \cup Clause("its own fields", \A i \in 1..Len(OwnFieldsSeen) : LET k == OwnFieldsSeen[i] IN
                         IF k \in DOMAIN w.own THEN k \in DOMAIN e.o.own /\ e.o.own[k] = w.own[k] ELSE k \notin DOMAIN e.o.own, w.own)
    [] e.ev = "call" ->     \* every parameter given, each a plain optional text
         LET w == TLCEval(Assembled(ses.docs, ses.url, e.path, e.m).params)
             In(loc) == {TextField(w[i], "name") : i \in {i \in 1..Len(w) : TextField(w[i], "in") = loc}}
         IN IF e.r.k # "ok" THEN {"calling with its parameters must succeed: specified success"} ELSE
            UNION {Clause("a parameter goes where its declaration says", Range(e.sent[loc]) = In(loc), <<loc, In(loc)>>) : loc \in {"query", "header", "path", "formData", "body"}}
    [] OTHER -> {"unknown event"}
=========================================================================
