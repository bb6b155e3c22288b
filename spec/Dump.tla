------------------------------ MODULE Dump ------------------------------
(* Writing a prepared description down as a document: path items with what  *)
(* they refer to taken over, operations with what they inherit, references  *)
(* absolute, nothing that is at its default.                                *)
EXTENDS Assembled, Swagger20

Txts(q) == <<"a", [i \in 1..Len(q) |-> <<"s", q[i]>>]>>
NonEmpty(f) == [k \in {k \in DOMAIN f : f[k] \notin {NoList, NoMap}} |-> f[k]]
(* as much of an operation as preparing settles: its parameters and responses in full *)
WrittenOp(docs, url, p, m, item) ==
  LET a == Assembled(docs, url, p, m)
      own == Declares("Operation", item[m].u, item[m].n)[2]
      full == [consumes |-> Txts(a.consumes), produces |-> Txts(a.produces), security |-> <<"a", a.security>>, parameters |-> <<"a", a.params>>,
               responses |-> <<"o", a.responses>>]
  IN <<"o", [k \in {k \in DOMAIN full : full[k] \notin {NoList, NoMap} \/ (k = "security" /\ k \in DOMAIN own)} |-> full[k]]
            @@ [k \in DOMAIN own \ {"parameters", "responses"} |-> own[k]]>>
WrittenItem(docs, url, p) ==
  LET item == TLCEval(ItemOf(docs, url, p))
  IN <<"o", [m \in MethodsOf(item) |-> WrittenOp(docs, url, p, m, item)] @@ (IF "parameters" \in DOMAIN item /\ ListAt(item, "parameters") # <<>> THEN
             [parameters |-> <<"a", LET q == ListAt(item, "parameters") IN [i \in 1..Len(q) |-> WholeNode(docs, q[i])]>>] ELSE <<>>)>>
Written(docs, url) ==
  LET whole == Declares("Swagger", url, docs[url])
      ps == MapField(docs[url], "paths")
  IN IF ps = <<>> THEN whole ELSE <<"o", [whole[2] EXCEPT !["paths"] = <<"o", [p \in DOMAIN ps |-> WrittenItem(docs, url, p)]>>]>>

(* two documents mean the same at url, among the same other documents *)
WithRoot(docs, url, d) == (url :> d) @@ docs
OpsOf(docs, url) == UNION {LET i == TLCEval(ItemOf(docs, url, p)) IN {<<p, m>> : m \in MethodsOf(i)} : p \in DOMAIN MapField(docs[url], "paths")}
Rest(d) == [k \in DOMAIN d[2] \ {"paths"} |-> d[2][k]]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
(* what an assembled operation says, not how it is said; its own fields are for OwnOp *)
Said15(a) == [a EXCEPT !.own = <<>>, !.params = [i \in 1..Len(a.params) |-> Declares("Parameter", "", a.params[i])],
                      !.responses = [s \in DOMAIN a.responses |-> Declares("Response", "", a.responses[s])]]
SameOp(a0, b0) == LET a == TLCEval(Said15(a0)) b == TLCEval(Said15(b0)) IN
                /\ [a EXCEPT !.params = <<>>] = [b EXCEPT !.params = <<>>]
                /\ Len(a.params) = Len(b.params) /\ \A i \in 1..Len(a.params) : Count(a.params, a.params[i]) = Count(b.params, a.params[i])
OpFields == {"tags", "operationId", "deprecated", "description", "summary", "externalDocs"}
OwnOp(docs, url, o) == LET i == ItemOf(docs, url, o[1])[o[2]] d == Declares("Operation", i.u, i.n)[2] IN [k \in OpFields \cap DOMAIN d |-> d[k]]
SameMeaning(docs, url, d) ==
  LET e == WithRoot(docs, url, d)
  IN /\ Rest(Declares("Swagger", url, docs[url])) = Rest(Declares("Swagger", url, d))
     /\ OpsOf(docs, url) = OpsOf(e, url)
     /\ \A o \in OpsOf(docs, url) : SameOp(Assembled(docs, url, o[1], o[2]), Assembled(e, url, o[1], o[2])) /\ OwnOp(docs, url, o) = OwnOp(e, url, o)

(* the place names something in which a and b differ *)
Differs(a, b, place) == Walk(a, PtrSplit(place)) # Walk(b, PtrSplit(place))
=========================================================================
