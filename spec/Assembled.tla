--------------------------- MODULE Assembled ---------------------------
(* What every operation of a description is, once prepared: references      *)
(* followed through documents, what a path item and the API give added.     *)
(* An object is a place [u |-> URL of its document, n |-> its node].        *)
EXTENDS Effective

Place(u, n) == [u |-> u, n |-> n]
NoPlace == [u |-> "", n |-> NONE]
RefPlace(docs, x) == LET r == NormRef(TextField(x.n, "$ref"), x.u) IN Place(RefUrl(r), Designates(docs, r, ""))
(* what x says itself, then what it refers to says: field -> place; a circle says nothing new *)
OwnFields(x) == [k \in DOMAIN x.n[2] \ {"$ref"} |-> Place(x.u, x.n[2][k])]
RECURSIVE Follow(_, _, _)
Follow(docs, x, seen) ==
  LET own == OwnFields(x) IN
  IF TextField(x.n, "$ref") = "" THEN own
  ELSE LET t == TLCEval(RefPlace(docs, x))
       IN IF t.n = NONE \/ t \in seen THEN own ELSE own @@ Follow(docs, t, seen \cup {t})
Whole(docs, x) == Follow(docs, x, {x})
(* a node as it reads in document u: references made absolute *)
RECURSIVE Absolute(_, _)
Absolute(u, n) ==
  IF n[1] = "o" THEN <<"o", [k \in DOMAIN n[2] |-> IF k = "$ref" /\ n[2][k][1] = "s" THEN <<"s", NormRef(n[2][k][2], u)>> ELSE Absolute(u, n[2][k])]>>
  ELSE IF n[1] = "a" THEN <<"a", [i \in 1..Len(n[2]) |-> Absolute(u, n[2][i])]>>
  ELSE n
Defaults == {<<"collectionFormat", <<"s", "csv">>>>, <<"allowEmptyValue", <<"b", FALSE>>>>}
AsObject(fs) == <<"o", [k \in {k \in DOMAIN fs : <<k, fs[k].n>> \notin Defaults} |-> Absolute(fs[k].u, fs[k].n)]>>
WholeNode(docs, x) == AsObject(Whole(docs, x))
ListAt(fs, k) == IF k \in DOMAIN fs /\ fs[k].n[1] = "a" THEN [i \in 1..Len(fs[k].n[2]) |-> Place(fs[k].u, fs[k].n[2][i])] ELSE <<>>

ItemOf(docs, url, p) == Whole(docs, Place(url, MapField(docs[url], "paths")[p]))
ParamsAt(docs, item, op) ==
  LET own == TLCEval(LET q == ListAt(op, "parameters") IN [i \in 1..Len(q) |-> WholeNode(docs, q[i])])
      up  == TLCEval(LET q == ListAt(item, "parameters") IN [i \in 1..Len(q) |-> WholeNode(docs, q[i])])
      names == {TextField(own[i], "name") : i \in 1..Len(own)}
  IN own \o SelectSeq(up, LAMBDA x : TextField(x, "name") \notin names)
ResponsesAt(docs, op) ==
  IF "responses" \notin DOMAIN op THEN <<>>
  ELSE LET rs == op["responses"] IN [s \in DOMAIN rs.n[2] |-> WholeNode(docs, Place(rs.u, rs.n[2][s]))]
MethodsOf(item) == {m \in Range(<<"get", "put", "post", "delete", "options", "head", "patch">>) : m \in DOMAIN item}
(* the operation m of the path p of the description at url *)
Assembled(docs, url, p, m) ==
  LET doc == docs[url]
      item == TLCEval(ItemOf(docs, url, p))
      op == TLCEval(OwnFields(item[m]))
      node == item[m].n
  IN [method |-> m, path |-> p, base |-> BasePathOf(doc), url |-> "//" \o HostOf(doc, url) \o JoinBase(BasePathOf(doc), p),
      consumes |-> Inherited(doc, node, "consumes"), produces |-> Inherited(doc, node, "produces"), schemes |-> SchemesOf(doc, node, url),
      security |-> SecurityOf(doc, node), params |-> ParamsAt(docs, item, op), responses |-> ResponsesAt(docs, op),
      own |-> [k \in {"operationId", "summary", "description", "tags", "deprecated"} \cap DOMAIN node[2] |-> node[2][k]]]
=========================================================================
