---------------------------- MODULE TraceC16 ----------------------------
(* What loading a 1.2 description gives, judged as the 2.0 document it means *)
(* and, for calls, in terms of the 1.2 description itself.                   *)
EXTENDS TraceC04, Upgrade12
Init16(ses) == LET d == TLCEval(UpgradedDoc(ses.docs, ses.url, ses.sep)) IN
               [ses |-> [docs |-> ses.url :> d, url |-> ses.url], doc |-> d, ops |-> TLCEval(Opers12(ses.docs, ses.url))]
AllOfBag(n) == LET q == ListField(n, "allOf") IN {<<q[i], Cardinality({j \in 1..Len(q) : q[j] = q[i]})>> : i \in 1..Len(q)}
NoAllOf(n) == Obj([k \in DOMAIN n[2] \ {"allOf"} |-> n[2][k]])
SameModel(url, a0, b0) == LET a == TLCEval(Declares("Schema", url, a0)) b == TLCEval(Declares("Schema", url, b0))
                          IN NoAllOf(a) = NoAllOf(b) /\ AllOfBag(a) = AllOfBag(b)

TextOf16(v) == CASE v[1] = "s" -> v[2] [] v[1] = "i" -> ToString(v[2]) [] OTHER -> Join([i \in 1..Len(v[2]) |-> IF v[2][i][1] = "i" THEN ToString(v[2][i][2]) ELSE v[2][i][2]], ",")
Value16(p, args) == LET n == TextField(p, "name") IN IF n \in DOMAIN args THEN args[n] ELSE Field(p, "defaultValue")
(* what a 1.2 client puts on the wire *)
Sent16(o, args, url) ==
  LET ps == ListField(o.op, "parameters")
      In(w) == {i \in 1..Len(ps) : TextField(ps[i], "paramType") = w /\ Value16(ps[i], args) # NONE}
      Pairs(w) == {<<TextField(ps[i], "name"), TextOf16(Value16(ps[i], args))>> : i \in In(w)}
      RECURSIVE Fill(_, _)
      Fill(t, qs) == IF qs = {} THEN t ELSE LET q == CHOOSE q \in qs : TRUE IN Fill(Replace(t, "{" \o q[1] \o "}", q[2]), qs \ {q})
      host == HostOf12(o.res)
  IN [method |-> o.m, url |-> (IF IsHttps(o.res) THEN "https://" ELSE "http://") \o (IF host = "" THEN Authority(url) ELSE host) \o Fill(o.path, Pairs("path")),
      query |-> Pairs("query"), header |-> Pairs("header"), form |-> Pairs("form"),
      body |-> IF In("body") = {} THEN NONE ELSE LET i == CHOOSE i \in In("body") : TRUE IN Value16(ps[i], args)]
Bad(r, set) == IF r.k # "ok" THEN {"a good 1.2 description must be usable: specified success"} ELSE set
Find16(x, e) == CHOOSE o \in x.ops : o.scope = e.scope /\ TextField(o.op, "nickname") = e.name
Verdict16(ses, x, e) ==
  CASE e.ev = "prepare" -> IF Cardinality({HostOf12(o.res) : o \in x.ops}) > 1 THEN Clause("a description of several hosts is refused", e.r.k = "exc" /\ "SchemaError" \in Range(e.r.c), "SchemaError")
                           ELSE Bad(e.r, {})
    [] e.ev = "ops" -> Verdict(x.ses, Init04(x.ses), e)
    [] e.ev = "op" ->
         LET at == {o \in x.ops : o.path = e.path /\ o.m = e.m} IN
         IF at = {} THEN {"an operation nobody described: specified none"} ELSE
         IF e.r.k # "ok" THEN {"an operation that cannot be read: specified one"} ELSE
         LET w == Assembled(x.ses.docs, x.ses.url, e.path, e.m).security
         IN Clause("authorizations as security", Bag(e.o.security) = Bag(w), w)
            \cup Verdict(x.ses, Init04(x.ses), [e EXCEPT !.o.security = w])
    [] e.ev = "top" -> Bad(e.r, LET w == x.doc IN
         Clause("info", Declares("Info", ses.url, Field(w, "info")) = e.o.info, Field(w, "info"))
         \cup Clause("tags", Range(e.o.tags) = {TextField(t, "name") : t \in Range(ListField(w, "tags"))} /\ Len(e.o.tags) = Len(ListField(w, "tags")), Field(w, "tags"))
         \cup Clause("host and base path", e.o.host = TextField(w, "host") /\ e.o.base = "", Field(w, "host"))
         \cup Clause("authorizations as security definitions", [k \in DOMAIN MapField(w, "securityDefinitions") |-> Declares("SecurityScheme", ses.url, MapField(w, "securityDefinitions")[k])] = e.o.sec, Field(w, "securityDefinitions"))
         \cup Clause("the models there are", DOMAIN e.o.defs = DOMAIN MapField(w, "definitions"), DOMAIN MapField(w, "definitions"))
         \cup UNION {LET d == MapField(w, "definitions")[k] IN Clause("a model", SameModel(ses.url, e.o.defs[k], d), <<k, d>>) : k \in DOMAIN e.o.defs \cap DOMAIN MapField(w, "definitions")})
    [] e.ev = "model" -> Bad(e.r, LET d == MapField(x.doc, "definitions")[e.scope \o ses.sep \o e.name] IN
         Clause("a model by its resource and id", SameModel(ses.url, e.o.dump, d), d)
         \cup Clause("the name of a model is its id", e.o.name = e.name, e.name))
    [] e.ev = "find" -> Bad(e.r, LET o == Find16(x, e) IN Clause("an operation by its resource and nickname", e.o = <<o.path, o.m>>, <<o.path, o.m>>))
    [] e.ev = "call" -> Bad(e.r, LET w == TLCEval(Sent16(Find16(x, e), e.args, ses.url)) IN
         Clause("the method sent", Lower(e.o.method) = w.method, w.method)
         \cup Clause("the URL sent", e.o.url = w.url, w.url)
         \cup Clause("the query sent", Range(e.o.query) = w.query /\ Len(e.o.query) = Cardinality(w.query), w.query)
         \cup Clause("the headers sent", Range(e.o.header) = w.header, w.header)
         \cup Clause("the form sent", Range(e.o.form) = w.form /\ Len(e.o.form) = Cardinality(w.form), w.form)
         \cup Clause("the body sent", e.o.hasbody = (w.body # NONE) /\ (w.body # NONE => e.o.body = w.body), w.body))
    [] OTHER -> {"unknown event"}
=========================================================================
