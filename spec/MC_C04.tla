----------------------------- MODULE MC_C04 -----------------------------
(* Preparing a description piece by piece, in any order: path items take over *)
(* in place what they refer to (which may have taken over something already), *)
(* and operations are assembled when their path item is complete.  In the end *)
(* each operation is what its position in the documents says.                 *)
EXTENDS Assembled, Swagger20, Json
CONSTANT Eager      \* TRUE: an operation may be assembled before its path item is complete
S(t) == <<"s", t>>
O(r) == <<"o", r>>
L(q) == <<"a", q>>
B(b) == <<"b", b>>
R(u) == O("$ref" :> S(u))
Root == "http://h:81/d/swagger.json"
Ext  == "http://h:81/d/ext.json"
P(n, where, d) == O([name |-> S(n), type |-> S("string"), description |-> S(d)] @@ ("in" :> S(where)))
Op(id, ps, more) == O([summary |-> S(id), parameters |-> L(ps), responses |-> O(("200" :> R("#/responses/Rr")) @@ ("default" :> O([description |-> S("d")])))] @@ more)
ExtOp == O([summary |-> S("x"), parameters |-> L(<<R("#/P"), R("swagger.json#/parameters/S")>>), responses |-> O("200" :> R("#/R"))])
ExtDoc == O([P |-> P("q", "query", "ext"), R |-> O([description |-> S("er"), schema |-> R("#/Z")]), Z |-> O([type |-> S("string")]), C |-> R("#/P"),
             I |-> O([post |-> ExtOp, parameters |-> L(<<R("#/C")>>)]), J |-> R("swagger.json#/paths/~1b")])
OwnParams == {<<>>, <<P("q", "query", "own")>>, <<R("#/parameters/S")>>, <<R("ext.json#/C")>>, <<R("#/parameters/T"), P("z", "header", "own")>>}
UpParams == {<<>>, <<P("q", "query", "up"), P("w", "header", "up")>>, <<R("#/parameters/T")>>}
ItemRefs == {"", "#/paths/~1b", "ext.json#/I", "ext.json#/J", "#/paths/~1c"}
Mores == {<<>>, "consumes" :> L(<<S("text/plain")>>), "security" :> L(<<>>), "security" :> L(<<O("k" :> L(<<>>))>>), ("schemes" :> L(<<S("wss")>>)) @@ ("produces" :> L(<<S("a/b"), S("c/d")>>))}
Tops == {<<>>, ("consumes" :> L(<<S("application/json"), S("x/y")>>)) @@ ("produces" :> L(<<S("application/xml")>>)) @@ ("schemes" :> L(<<S("https"), S("http")>>)) @@ ("security" :> L(<<O("k" :> L(<<>>))>>)) @@ ("host" :> S("api")) @@ ("basePath" :> S("/v1"))}
Base == [swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]),
         parameters |-> O([S |-> P("s", "query", "shared"), T |-> O(("$ref" :> S("#/parameters/U")) @@ ("description" :> S("sibling"))), U |-> P("q", "formData", "u")]),
         responses |-> O([Rr |-> O([description |-> S("rr")])]),
         securityDefinitions |-> O([k |-> O([type |-> S("basic")])])]
Doc(ref, own, up, more, top, sibling) ==
  LET get == Op("g", own, more)
      a == (IF ref = "" THEN <<>> ELSE "$ref" :> S(ref)) @@ (IF ref = "" \/ sibling THEN [get |-> get] ELSE <<>>) @@ (IF up = <<>> THEN <<>> ELSE [parameters |-> L(up)])
      b == O([get |-> get, delete |-> Op("d", <<>>, <<>>)] @@ (IF up = <<>> THEN <<>> ELSE [parameters |-> L(up)]))
      c == O("$ref" :> S(IF ref = "#/paths/~1c" /\ sibling THEN "#/paths/~1a" ELSE "#/paths/~1b"))
  IN O([paths |-> O(("/a" :> O(a)) @@ ("/b" :> b) @@ ("/c" :> c))] @@ top @@ Base)
Docs(d) == (Root :> d) @@ (Ext :> ExtDoc)
VARIABLES doc, items, done
vars == <<doc, items, done>>
Paths == {"/a", "/b", "/c"}
PlaceOf(d, p) == Place(Root, MapField(d, "paths")[p])
Init == /\ \E ref \in ItemRefs, own \in OwnParams, up \in UpParams, more \in Mores, top \in Tops, sib \in BOOLEAN :
             /\ (sib => ref # "")
             /\ doc = Doc(ref, own, up, more, top, sib)
        /\ items = [p \in Paths |-> OwnFields(PlaceOf(doc, p))]
        /\ done = {}
(* the path items of the root document are taken as they are by now *)
RECURSIVE Now(_, _, _)
Now(d, x, seen) ==
  LET at == {p \in Paths : PlaceOf(d, p) = x}
      own == IF at # {} THEN items[CHOOSE p \in at : TRUE] ELSE OwnFields(x)
  IN IF TextField(x.n, "$ref") = "" THEN own
     ELSE LET t == TLCEval(RefPlace(Docs(d), x)) IN IF t.n = NONE \/ t \in seen THEN own ELSE own @@ Now(d, t, seen \cup {t})
Complete(p) == /\ p \notin done
               /\ items' = [items EXCEPT ![p] = Now(doc, PlaceOf(doc, p), {PlaceOf(doc, p)})]
               /\ done' = done \cup {p} /\ UNCHANGED doc
Next == \E p \in Paths : Complete(p)
Spec == Init /\ [][Next]_vars
Wanted(p) == ItemOf(Docs(doc), Root, p)
ItemsRight == \A p \in done : items[p] = Wanted(p)
(* operations are assembled when their path item is complete *)
OpsRight == \A p \in (IF Eager THEN Paths ELSE done) : \A m \in MethodsOf(items[p]) :
              ParamsAt(Docs(doc), items[p], OwnFields(items[p][m])) = Assembled(Docs(doc), Root, p, m).params
Emit == done # {} \/ PrintT(<<"@T@", ToJson(Docs(doc))>>)
=========================================================================
