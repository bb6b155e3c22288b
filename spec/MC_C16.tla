----------------------------- MODULE MC_C16 -----------------------------
(* Upgrading a 1.2 description element by element, whatever element comes   *)
(* next as long as what it belongs to was there before: in the end the 2.0  *)
(* document is the one specified.                                           *)
EXTENDS Upgrade12, Json
CONSTANT Rebuild    \* TRUE: a model starts afresh when it is met, whatever was said about it
S(t) == <<"s", t>>
L(q) == <<"a", q>>
Root == "http://h/d/swagger.json"
Sep == "!##!"
Par(n, w, more) == Obj(more @@ [name |-> S(n), paramType |-> S(w), type |-> S("string")])
OpN(m, n, ps, more) == Obj(more @@ [method |-> S(m), nickname |-> S(n), type |-> S("void"), parameters |-> L(ps)])
Api(p, ops) == Obj([path |-> S(p), operations |-> L(ops)])
Mod(id, subs, more) == Obj([id |-> S(id), properties |-> Obj([name |-> Obj(more @@ [type |-> S("string")])])] @@ (IF subs = <<>> THEN <<>> ELSE [subTypes |-> L(subs)]))
Bases == {"http://api/v1/", "https://api", "/rel"}
Params1 == {<<>>, <<Par("q", "query", [allowMultiple |-> <<"b", TRUE>>, defaultValue |-> S("x")]), Par("h", "header", [enum |-> L(<<S("a"), S("b")>>)])>>,
            <<Par("n", "query", [type |-> S("integer"), minimum |-> S("0"), maximum |-> S("9.0"), defaultValue |-> <<"i", 0>>])>>,
            <<Obj([name |-> S("body"), paramType |-> S("body"), type |-> S("A")])>>}
Auths1 == {<<>>, "authorizations" :> Obj("b" :> L(<<>>)), "authorizations" :> Obj(("b" :> L(<<>>)) @@ ("o" :> L(<<Obj("scope" :> S("w"))>>)))}
SubsOf == {<<>>, <<S("B")>>, <<S("B"), S("C")>>}
Docs16(b1, b2, ps, ra, oa, sa, sb, two) ==
  LET models == Obj([A |-> Mod("A", sa, <<>>), B |-> Mod("B", sb, [type |-> S("number"), minimum |-> S("1.5")]), C |-> Mod("C", <<>>, <<>>)])
      r1 == Obj([swaggerVersion |-> S("1.2"), basePath |-> S(b1), models |-> models, produces |-> L(<<S("a/b")>>),
                 apis |-> L(<<Api("/p", <<OpN("GET", "g", ps, oa), OpN("POST", "c", <<>>, [type |-> S("array"), items |-> Obj("$ref" :> S("B"))])>>), Api("/q", <<OpN("GET", "h", <<>>, <<>>)>>)>>)] @@ ra)
      r2 == Obj([swaggerVersion |-> S("1.2"), basePath |-> S(b2), models |-> Obj("A" :> Mod("A", <<>>, <<>>)),
                 apis |-> L(<<Api("/z", <<OpN("PUT", "g", ps, [type |-> S("A"), deprecated |-> S("true"), consumes |-> L(<<S("c/d")>>)])>>)>>)])
      list == Obj([swaggerVersion |-> S("1.2"), apiVersion |-> S("1"), apis |-> L(<<Obj("path" :> S("/r"))>> \o (IF two THEN <<Obj("path" :> S("/t/u"))>> ELSE <<>>)),
                   authorizations |-> Obj([b |-> Obj("type" :> S("basicAuth")), o |-> Obj([type |-> S("oauth2"), scopes |-> L(<<Obj([scope |-> S("w"), description |-> S("write")])>>),
                     grantTypes |-> Obj("implicit" :> Obj("loginEndpoint" :> Obj("url" :> S("http://a"))))])])])
  IN (Root :> list) @@ ("http://h/d/r" :> r1) @@ (IF two THEN "http://h/d/t/u" :> r2 ELSE <<>>)

VARIABLES docs, paths, defs, todo
vars == <<docs, paths, defs, todo>>
Elements(d) ==
  {<<"op", o>> : o \in Opers12(d, Root)}
  \cup UNION {{<<"param", o, i>> : i \in 1..Len(ListField(o.op, "parameters"))} : o \in Opers12(d, Root)}
  \cup {<<"model", p>> : p \in ModelPairs(d, Root)}
Init == /\ \E b1 \in Bases, b2 \in {"http://api/v2", "https://api/", "/rel/x"}, ps \in Params1, ra \in Auths1, oa \in Auths1, sa \in SubsOf, sb \in {<<>>, <<S("C")>>}, two \in BOOLEAN :
             /\ two => (b1 = "/rel" <=> b2 = "/rel/x")
             /\ ~two => b2 = "/rel/x"
             /\ (ps # <<>> \/ ra = <<>>) /\ (sa # <<>> \/ oa = <<>>) /\ (sb # <<>> \/ two)
             /\ docs = Docs16(b1, b2, ps, ra, oa, sa, sb, two)
        /\ paths = <<>> /\ defs = <<>> /\ todo = Elements(docs)
Blank16 == Obj(<<>>)
With(n, more) == Obj(more @@ n[2])
AddRef(n, ref) == With(n, "allOf" :> L(ListField(n, "allOf") \o <<Obj("$ref" :> ref)>>))
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
OpStep(o) == LET made == Oper12(o.op, o.res, o.scope, Sep)
                 bare == With(made, "parameters" :> L(<<>>))
             IN /\ paths' = (o.path :> Obj((o.m :> bare) @@ At(paths, o.path, Blank16)[2])) @@ paths
                /\ UNCHANGED defs
ParamStep(o, i) == LET item == paths[o.path]
                       op == item[2][o.m]
                       new == With(op, "parameters" :> L(ListField(op, "parameters") \o <<Param12(ListField(o.op, "parameters")[i], o.scope, Sep)>>))
                   IN /\ paths' = (o.path :> Obj((o.m :> new) @@ item[2])) @@ paths
                      /\ UNCHANGED defs
Key(scope, id) == scope \o Sep \o id
ModelStep(n, id) ==
  LET res == ResourceAt(docs, Root, n)
      m == MapField(res, "models")[id]
      own == [k \in DOMAIN Model12(res, n, id, Sep)[2] \ {"allOf"} |-> Model12(res, n, id, Sep)[2][k]]
      self == (Key(n, id) :> (IF Rebuild THEN Obj(own) ELSE With(At(defs, Key(n, id), Blank16), own))) @@ defs
      RECURSIVE Subs(_, _)
      Subs(d, q) == IF q = <<>> THEN d ELSE LET k == Key(n, q[1][2]) IN Subs((k :> AddRef(At(d, k, Blank16), ModelRef(n, id, Sep))) @@ d, Tail(q))
  IN /\ defs' = Subs(self, ListField(m, "subTypes"))
     /\ UNCHANGED paths
Step(e) == /\ e[1] = "param" => <<"op", e[2]>> \notin todo
           /\ (e[1] = "param" /\ e[3] > 1) => <<"param", e[2], e[3] - 1>> \notin todo
           /\ CASE e[1] = "op" -> OpStep(e[2]) [] e[1] = "param" -> ParamStep(e[2], e[3]) [] OTHER -> ModelStep(e[2][1], e[2][2])
           /\ todo' = todo \ {e} /\ UNCHANGED docs
(* the elements of one resource do not mix with those of another: they are taken resource by resource *)
ScopeOf(e) == IF e[1] = "model" THEN e[2][1] ELSE e[2].scope
Next == \E e \in todo : /\ ~(\E f \in todo : ScopeOf(f) = "r" /\ ScopeOf(e) # "r")
                        /\ ~(\E f \in todo : e[1] # "model" /\ f[1] = "model" /\ ScopeOf(f) = ScopeOf(e))
                        /\ Step(e)
Spec == Init /\ [][Next]_vars
BagOf(n, k) == LET q == ListField(n, k) IN {<<q[i], Cardinality({j \in 1..Len(q) : q[j] = q[i]})>> : i \in 1..Len(q)}
Drop(n, k) == [x \in DOMAIN n[2] \ {k} |-> n[2][x]]
SameUpTo(a, b, k) == Drop(a, k) = Drop(b, k) /\ BagOf(a, k) = BagOf(b, k)
Upgraded == todo # {} \/ LET u == UpgradedDoc(docs, Root, Sep)
                             wp == MapField(u, "paths")
                             wd == MapField(u, "definitions")
  IN /\ DOMAIN paths = DOMAIN wp /\ DOMAIN defs = DOMAIN wd
     /\ \A p \in DOMAIN wp : DOMAIN paths[p][2] = DOMAIN wp[p][2] /\ \A m \in DOMAIN wp[p][2] : SameUpTo(paths[p][2][m], wp[p][2][m], "parameters")
     /\ \A d \in DOMAIN wd : SameUpTo(defs[d], wd[d], "allOf")
(* the result is a 2.0 document: no unknown fields, every reference leads to a schema *)
Sound == todo # Elements(docs) \/ LET u == UpgradedDoc(docs, Root, Sep) IN
  /\ Unknown(u) = {}
  /\ Cardinality(Opers12(docs, Root)) = Cardinality(UNION {{<<p, m>> : m \in DOMAIN MapField(u, "paths")[p][2]} : p \in DOMAIN MapField(u, "paths")})
  /\ \A o \in Objects(u) : HasField(o.node, "$ref") => Designates(Root :> u, TextField(o.node, "$ref"), Root) # NONE
Emit == todo # Elements(docs) \/ PrintT(<<"@T@", ToJson(docs)>>)
=========================================================================
