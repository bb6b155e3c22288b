---------------------------- MODULE Validate ----------------------------
(* The documented rules of a description, and what breaks them: errors are  *)
(* <<pointer of the object, its class, the rule>>.                          *)
EXTENDS Upgrade12

Miss(n, k) == ~HasField(n, k) \/ Field(n, k)[1] = "n"
Falsy(n, k) == Miss(n, k) \/ TextField(n, k) = ""
Errs(o, msgs) == {<<o.ptr, o.cls, m>> : m \in msgs}
If(c, m) == IF c THEN {m} ELSE {}
Needs(n, ks) == {"requirement " \o k \o " not meet." : k \in {k \in ks : Miss(n, k)}}
NameIn(n) == IF Miss(n, "name") THEN "None" ELSE TextField(n, "name")

(* ---- 2.0 ---- *)
Broken20(doc) ==
  UNION {Errs(o, LET ps == MapField(o.node, "properties")
                     rq == {x[2] : x \in Range(ListField(o.node, "required"))}
                 IN {"ReadOnly property in required list: " \o k : k \in {k \in rq \cap DOMAIN ps : IsTrue(ps[k], "readOnly")}})
         : o \in {o \in Objects(doc) : o.cls = "Schema"}}

(* ---- 1.2: the objects there are, [ptr, cls, n, op, res] ---- *)
Ob(ptr, cls, n) == [ptr |-> ptr, cls |-> cls, node |-> n]
ChildAt(o, k, cls) == IF Field(o.node, k)[1] = "o" THEN {Ob(PtrCompose(<<k>>, o.ptr), cls, Field(o.node, k))} ELSE {}
ListOf12(o, k, cls) == LET q == ListField(o.node, k) IN {Ob(PtrCompose(<<k, ToString(i - 1)>>, o.ptr), cls, q[i]) : i \in 1..Len(q)}
MapOf12(o, k, cls) == LET f == MapField(o.node, k) IN {Ob(PtrCompose(<<k, x>>, o.ptr), cls, f[x]) : x \in DOMAIN f}
HasItems(n) == Field(n, "items")[1] = "o"
ItemsUnder(o) == IF HasItems(o.node) THEN ChildAt(o, "items", "Items") ELSE {}
Chain(o, ks) == LET RECURSIVE Go(_, _)
                    Go(os, i) == IF i > Len(ks) THEN {} ELSE LET t == UNION {ChildAt(x, ks[i][1], ks[i][2]) : x \in os} IN t \cup Go(t, i + 1)
                IN Go({o}, 1)
AuthObjects(list) ==
  LET as == MapOf12(Ob("#", "ResourceList", list), "authorizations", "Authorization") IN
  UNION {{a} \cup ListOf12(a, "scopes", "Scope") \cup Chain(a, <<<<"grantTypes", "GrantType">>, <<"implicit", "Implicit">>, <<"loginEndpoint", "LoginEndpoint">>>>)
         \cup (LET g == ChildAt(a, "grantTypes", "GrantType")
                   c == UNION {ChildAt(x, "authorization_code", "AuthorizationCode") : x \in g}
               IN c \cup UNION {ChildAt(x, "tokenRequestEndpoint", "TokenRequestEndpoint") \cup ChildAt(x, "tokenEndpoint", "TokenEndpoint") : x \in c}) : a \in as}
(* an operation is found by its nickname in its resource; without one, at its resource's apis *)
OperPtr(scope, op) == PtrCompose(<<"apis", scope, "apis">> \o (IF Miss(op, "nickname") THEN <<>> ELSE <<TextField(op, "nickname")>>), "#")
OperObjects(docs, url) == {Ob(OperPtr(o.scope, o.op), "Operation", o.op) @@ [res |-> o.res] : o \in Opers12(docs, url)}
ModelObjects(docs, url) == UNION {MapOf12(Ob(PtrCompose(<<"apis", n>>, "#"), "Resource", ResourceAt(docs, url, n)), "models", "Model") : n \in ResourceNames(docs[url])}
UsesOf(o) == LET a == MapField(o.node, "authorizations") IN
             UNION {{Ob(PtrCompose(<<"authorizations", k, ToString(i - 1)>>, o.ptr), "Authorizations", a[k][2][i]) : i \in 1..Len(a[k][2])} : k \in DOMAIN a}

DataRules(n) ==
  If(Miss(n, "type") /\ Miss(n, "$ref"), "type or $ref should be existed.")
  \cup If((TextField(n, "type") = "array") # HasItems(n), "array should be existed along with items")
  \cup If(~Miss(n, "uniqueItems") /\ TextField(n, "type") # "array", "uniqueItems is only used for array type.")
VoidRule(n) == If(TextField(n, "type") = "void", "void is only allowed in Operation object.")
ParamRules(n, op, res) ==
  LET many == IsTrue(n, "allowMultiple")
      where == TextField(n, "paramType")
      eats == LET c == Own12(op, res, "consumes") IN IF c = NONE THEN <<>> ELSE c[2]
  IN Needs(n, {"paramType", "name"}) \cup DataRules(n) \cup VoidRule(n)
     \cup If(many /\ where \notin {"path", "query", "header"}, "allowMultiple should be applied on path, header, or query parameters")
     \cup If(many /\ TextField(n, "type") = "array", "array Type with allowMultiple is not supported.")
     \cup If(where = "body" /\ (Miss(n, "name") \/ TextField(n, "name") \notin {"", "body"}), "body parameter with invalid name: " \o NameIn(n))
     \cup If(TextField(n, "type") = "File" /\ where # "form", "File parameter should be form type: " \o NameIn(n))
     \cup If(TextField(n, "type") = "File" /\ Txt("multipart/form-data") \notin Range(eats), "File parameter should consume multipart/form-data: " \o NameIn(n))
AuthRules(n) ==
  LET t == TextField(n, "type") IN
  Needs(n, {"type"})
  \cup (IF t = "apiKey" THEN If(Falsy(n, "passAs"), "need \"passAs\" for apiKey") \cup If(Falsy(n, "keyname"), "need \"keyname\" for apiKey") ELSE {})
  \cup (IF t = "oauth2" THEN If(Field(n, "grantTypes")[1] # "o", "need \"grantTypes\" for oauth2") ELSE {})
OperRules(n, list) ==
  LET a == MapField(n, "authorizations")
      known == MapField(list, "authorizations")
  IN Needs(n, {"method", "nickname"}) \cup DataRules(n)
     \cup {"auth " \o k \o " not found in resource list" : k \in DOMAIN a \ DOMAIN known}
     \cup {"auth " \o k \o " should be an empty list" : k \in {k \in DOMAIN a \cap DOMAIN known : TextField(known[k], "type") \in {"basicAuth", "apiKey"} /\ a[k][2] # <<>>}}
RulesOf(o) ==
  CASE o.cls = "Info" -> Needs(o.node, {"title", "description"})
    [] o.cls = "Authorization" -> AuthRules(o.node)
    [] o.cls \in {"Scope", "Authorizations"} -> Needs(o.node, {"scope"})
    [] o.cls = "GrantType" -> If(Field(o.node, "implicit")[1] # "o" /\ Field(o.node, "authorization_code")[1] # "o", "Either implicit or authorization_code should be defined.")
    [] o.cls = "Implicit" -> Needs(o.node, {"loginEndpoint"})
    [] o.cls \in {"LoginEndpoint", "TokenRequestEndpoint", "TokenEndpoint"} -> Needs(o.node, {"url"})
    [] o.cls = "AuthorizationCode" -> Needs(o.node, {"tokenRequestEndpoint", "tokenEndpoint"})
    [] o.cls = "Resource" -> Needs(o.node, {"swaggerVersion", "basePath"})
    [] o.cls = "Model" -> Needs(o.node, {"id"})
    [] o.cls = "Property" -> DataRules(o.node) \cup VoidRule(o.node)
    [] o.cls = "Items" -> VoidRule(o.node)
    [] o.cls = "ResponseMessage" -> Needs(o.node, {"code", "message"})
    [] OTHER -> {}
(* objects whose rules concern them alone *)
Alone12(docs, url) ==
  LET list == docs[url]
      ops == TLCEval(OperObjects(docs, url))
      models == TLCEval(ModelObjects(docs, url))
      props == UNION {MapOf12(m, "properties", "Property") : m \in models}
      params == UNION {ListOf12(o, "parameters", "Parameter") : o \in ops}
  IN ChildAt(Ob("#", "ResourceList", list), "info", "Info") \cup AuthObjects(list)
     \cup {Ob(PtrCompose(<<"apis", n>>, "#"), "Resource", ResourceAt(docs, url, n)) : n \in ResourceNames(list)}
     \cup models \cup props \cup UNION {ItemsUnder(x) : x \in props \cup params \cup {Ob(o.ptr, o.cls, o.node) : o \in ops}}
     \cup UNION {ListOf12(o, "responseMessages", "ResponseMessage") \cup UsesOf(o) : o \in ops}
Broken12(docs, url) ==
  UNION {Errs(o, RulesOf(o)) : o \in Alone12(docs, url)}
  \cup UNION {Errs(o, OperRules(o.node, docs[url])) \cup UNION {Errs(p, ParamRules(p.node, o.node, o.res)) : p \in ListOf12(o, "parameters", "Parameter")} : o \in OperObjects(docs, url)}
Is12(docs, url) == HasField(docs[url], "swaggerVersion")
Broken(docs, url) == IF Is12(docs, url) THEN Broken12(docs, url) ELSE Broken20(docs[url])
=========================================================================
