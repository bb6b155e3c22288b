------------------------------ MODULE Wire ------------------------------
(* The request that must be on the wire for a call with options.            *)
EXTENDS Request
Transports == {"http", "https"}            \* what the bundled clients speak
UpperMap == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
RECURSIVE Upper(_)
Upper(t) == IF t = "" THEN "" ELSE (IF Ch(t, 1) \in DOMAIN UpperMap THEN UpperMap[Ch(t, 1)] ELSE Ch(t, 1)) \o Upper(From(t, 2))
(* schemes that might be used: {} when the call must be refused *)
Usable(schemes, preferred) == LET S == Range(schemes) \cap Transports IN IF preferred = "" THEN S ELSE S \cap {preferred}
(* o: options [scheme, consume, produce, netloc, urlscheme], "" when not given *)
WantedRequest(doc, url, path, m, pl, o) ==
  LET op == Oper(doc, path, m)
      ct == ContentType(Inherited(doc, op, "consumes"), o.consume, pl)
      ac == Accept(Inherited(doc, op, "produces"), o.produce)
      sc == Usable(SchemesOf(doc, op, url), o.scheme)
  IN [unclaimed |-> ct = "text/plain" /\ pl.body[1][1] # "s",       \* only texts are text/plain
      refused |-> ct = "!" \/ ac = "!" \/ sc = {} \/ (ct # "" /\ ct \notin {MULTI, URLENC} /\ ct \notin Coded) \/ (ct = URLENC /\ ~HasForm(pl) /\ DOMAIN pl.file = {}) \/ (ct = MULTI /\ DOMAIN pl.file = {}),
      method |-> Upper(m), schemes |-> IF o.urlscheme # "" THEN {o.urlscheme} ELSE sc,
      netloc |-> IF o.netloc # "" THEN o.netloc ELSE HostOf(doc, url),
      template |-> JoinBase(BasePathOf(doc), path), ctype |-> ct, accept |-> ac, place |-> pl]
(* values of a header, whatever its spelling *)
HeaderVals(hs, n) == LET q == SelectSeq(hs, LAMBDA x : Lower(x[1]) = Lower(n)) IN [i \in 1..Len(q) |-> Strip(q[i][2])]
Custom(n) == LET k == Lower(n) IN StartsWith(k, "x-") \/ StartsWith(k, "if-") \/ k \in {"access_token", "authorization"}
HeadersFit(hs, want) == /\ {Lower(hs[i][1]) : i \in {j \in 1..Len(hs) : Custom(hs[j][1])}} = {Lower(n) : n \in DOMAIN want}
                        /\ \A n \in DOMAIN want : want[n] = NOSTR \/ HeaderVals(hs, n) = <<Strip(want[n])>>
(* clauses an observed request breaks *)
Judge(w, want, files) ==
  IF DOMAIN w = {"sent"} THEN {"exactly one request must be sent: specified 1 request"}
  ELSE
  LET C(name, ok, exp) == IF ok THEN {} ELSE {name \o ": specified " \o ToString(exp)} IN
       C("method", w.method = want.method, want.method)
  \cup C("scheme", w.scheme \in want.schemes, want.schemes)
  \cup C("host", w.netloc = want.netloc, want.netloc)
  \cup C("path", PathFits(w.path, want.template, want.place.path), <<want.template, want.place.path>>)
  \cup C("query", SameEntries(ByName(FormPairs(w.query)), want.place.query), want.place.query)
  \cup C("headers", HeadersFit(w.headers, want.place.header), want.place.header)
  \cup C("accept", want.accept = "" \/ HeaderVals(w.headers, "accept") = <<want.accept>>, want.accept)
  \cup C("content type", want.ctype = "" \/ w.ctype = want.ctype, want.ctype)   \* without a body it says nothing
  \cup C("body", BodyFits(w.body, want.ctype, want.place, files), <<want.place.form, want.place.file, want.place.body>>)
=========================================================================
