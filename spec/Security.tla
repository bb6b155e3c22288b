---------------------------- MODULE Security ----------------------------
(* Credentials: which a call must carry, given what was provided last.       *)
EXTENDS Wire
StdB64 == UpperCase \o LowerCase \o Digits \o "+/"
SecDefs(doc) == MapField(doc, "securityDefinitions")
SecType(doc, n) == TextField(SecDefs(doc)[n], "type")
Providable(doc, n) == n \in DOMAIN SecDefs(doc) /\ SecType(doc, n) \in {"basic", "apiKey", "oauth2"}
(* <<where, name, value>>; c is the credential given *)
Credential(doc, n, c) ==
  CASE SecType(doc, n) = "basic" -> <<"header", "Authorization", "Basic " \o Base64(c[2][1][2] \o ":" \o c[2][2][2], StdB64)>>
    [] SecType(doc, n) = "oauth2" -> <<"header", "access_token", c[2]>>
    [] OTHER -> <<TextField(SecDefs(doc)[n], "in"), TextField(SecDefs(doc)[n], "name"), c[2]>>
(* every scheme of every alternative *)
RequiredBy(doc, op) == LET q == SecurityOf(doc, op) IN UNION {DOMAIN q[i][2] : i \in 1..Len(q)}
Carried(doc, op, given) == {Credential(doc, n, given[n]) : n \in RequiredBy(doc, op) \cap DOMAIN given}
CredAt(cs, where, n) == {c[3] : c \in {x \in cs : x[1] = where /\ (IF where = "header" THEN Lower(x[2]) = Lower(n) ELSE x[2] = n)}}
(* headers of parameters and credentials: credentials win, once each *)
HeadersCarry(hs, place, cs) ==
  LET cn == {Lower(c[2]) : c \in {x \in cs : x[1] = "header"}}
      pn == {Lower(n) : n \in DOMAIN place} \ cn
  IN /\ {Lower(hs[i][1]) : i \in {j \in 1..Len(hs) : Custom(hs[j][1])}} = cn \cup pn
     /\ \A n \in cn : LET v == HeaderVals(hs, n) IN Len(v) = 1 /\ v[1] \in {Strip(x) : x \in CredAt(cs, "header", n)}
     /\ \A n \in DOMAIN place : Lower(n) \in cn \/ place[n] = NOSTR \/ HeaderVals(hs, n) = <<Strip(place[n])>>
QueryCarries(q, place, cs) ==
  LET cn == {c[2] : c \in {x \in cs : x[1] = "query"}}
      o == ByName(FormPairs(q))
      N == {n \in DOMAIN place : place[n] # <<>>} \ cn
  IN /\ DOMAIN o = N \cup cn
     /\ \A n \in cn : Len(o[n]) = 1 /\ o[n][1] \in CredAt(cs, "query", n)
     /\ \A n \in N : ClaimedSeq(o[n], place[n])
JudgeCreds(w, want, cs) ==
  IF DOMAIN w = {"sent"} THEN {"exactly one request must be sent: specified 1 request"}
  ELSE LET C(name, ok, exp) == IF ok THEN {} ELSE {name \o ": specified " \o ToString(exp)}
       IN C("headers and credentials", HeadersCarry(w.headers, want.place.header, cs), <<want.place.header, cs>>)
          \cup C("query and credentials", QueryCarries(w.query, want.place.query, cs), <<want.place.query, cs>>)
=========================================================================
