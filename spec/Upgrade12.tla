--------------------------- MODULE Upgrade12 ---------------------------
(* The Swagger 2.0 document a Swagger 1.2 description means: a resource     *)
(* listing and the resources its apis name (docs: URL -> node).             *)
EXTENDS Dump

DirUrl(url) == IF EndsWith(UPath(url), ".json") \/ EndsWith(UPath(url), ".yaml") THEN Upto(url, FindLast(url, "/") - 1) ELSE url
ApiName(a) == From(TextField(a, "path"), 2)
ResourceNames(list) == LET q == ListField(list, "apis") IN {ApiName(q[i]) : i \in 1..Len(q)}
ResourceUrl(url, name) == LET d == DirUrl(url) IN d \o (IF EndsWith(d, "/") THEN "" ELSE "/") \o name
ResourceAt(docs, url, name) == docs[ResourceUrl(url, name)]

Types12 == {"integer", "number", "string", "boolean", "file", "array", "object"}
Txt(t) == <<"s", t>>
Obj(r) == <<"o", r>>
(* k says v, unless nothing is said *)
Says(k, v) == IF v = NONE THEN <<>> ELSE k :> v
Copied(ks, n) == [k \in {k \in ks : HasField(n, k) /\ Field(n, k)[1] # "n"} |-> Field(n, k)]
Renamed(k, n, from) == IF HasField(n, from) /\ Field(n, from)[1] # "n" THEN k :> Field(n, from) ELSE <<>>
ModelRef(scope, id, sep) == Txt("#/definitions/" \o EscTok(scope \o sep \o id))
TypeOrRef(n, scope, sep) ==
  LET t == TextField(n, "type") IN
  IF HasField(n, "$ref") THEN "$ref" :> ModelRef(scope, TextField(n, "$ref"), sep)
  ELSE IF t = "" THEN <<>> ELSE IF t \in Types12 THEN "type" :> Txt(t) ELSE "$ref" :> ModelRef(scope, t, sep)
(* bounds are numbers, or the text of one, or empty *)
Bound(t, v) ==
  IF v[1] = "s" /\ v[2] = "" THEN NONE
  ELSE IF t = "integer" THEN (CASE v[1] = "i" -> v
                               [] v[1] = "s" /\ IsDecimal(v[2]) -> TextToInt(v[2])
                               [] v[1] = "s" -> <<"i", TextToNum8(v[2])[2] \div 8>>
                               [] OTHER -> <<"i", v[2] \div 8>>)
  ELSE CASE v[1] = "i" -> <<"q", 8 * v[2]>> [] v[1] = "s" -> TextToNum8(v[2]) [] OTHER -> v
Bounds(n) == [k \in {k \in {"minimum", "maximum"} : HasField(n, k) /\ Bound(TextField(n, "type"), Field(n, k)) # NONE} |-> Bound(TextField(n, "type"), Field(n, k))]
ItemsOf12(n, scope, sep) == Obj(TypeOrRef(n, scope, sep) @@ Copied({"format"}, n))
DataType(n, scope, sep) ==
  TypeOrRef(n, scope, sep) @@ Copied({"format", "uniqueItems", "enum"}, n) @@ Renamed("default", n, "defaultValue") @@ Bounds(n)
  @@ (IF HasField(n, "items") THEN "items" :> ItemsOf12(Field(n, "items"), scope, sep) ELSE <<>>)
IsMultiple(p) == Field(p, "allowMultiple") = <<"b", TRUE>> /\ ~HasField(p, "items")
Param12(p, scope, sep) ==
  LET where == TextField(p, "paramType")
      common == ("in" :> Txt(IF where = "form" THEN "formData" ELSE where)) @@ Copied({"name", "required", "description"}, p)
  IN Obj(common @@
     (IF where = "body" THEN "schema" :> Obj(DataType(p, scope, sep))
      ELSE IF IsMultiple(p) THEN
        ("type" :> Txt("array")) @@ Copied({"uniqueItems"}, p) @@ (IF HasField(p, "defaultValue") THEN "default" :> <<"a", <<Field(p, "defaultValue")>>>> ELSE <<>>)
        @@ ("items" :> Obj(("type" :> Txt(TextField(p, "type"))) @@ Copied({"format", "enum"}, p) @@ Bounds(p)))
      ELSE ("type" :> Txt(Lower(TextField(p, "type")))) @@ Copied({"format", "enum", "uniqueItems"}, p) @@ Renamed("default", p, "defaultValue") @@ Bounds(p)
           @@ (IF HasField(p, "items") THEN "items" :> ItemsOf12(Field(p, "items"), scope, sep) ELSE <<>>)))

(* what an operation takes from its resource when it says nothing itself *)
Own12(op, res, k) == IF ListField(op, k) # <<>> THEN Field(op, k) ELSE IF ListField(res, k) # <<>> THEN Field(res, k) ELSE NONE
Auths12(op, res) == LET a == IF HasField(op, "authorizations") THEN MapField(op, "authorizations") ELSE MapField(res, "authorizations")
                        names == SetToSeq(DOMAIN a)
                    IN [i \in 1..Len(names) |-> Obj(names[i] :> <<"a", LET q == a[names[i]][2] IN [j \in 1..Len(q) |-> Field(q[j], "scope")]>>)]
BaseOf12(res) == LET b == TextField(res, "basePath") IN IF HasScheme(b) THEN UPath(b) ELSE b
RECURSIVE NoSlash(_)
NoSlash(t) == IF EndsWith(t, "/") THEN NoSlash(Upto(t, Len(t) - 1)) ELSE t
Path12(res, api) == LET p == TextField(api, "path") IN (IF StartsWith(p, "/") THEN NoSlash(BaseOf12(res)) ELSE BaseOf12(res)) \o p
HostOf12(res) == LET b == TextField(res, "basePath") IN IF HasScheme(b) THEN Authority(b) ELSE ""
IsHttps(res) == StartsWith(TextField(res, "basePath"), "https://")
Oper12(op, res, scope, sep) ==
  LET ps == ListField(op, "parameters")
      ret == DataType(op, scope, sep)
  IN Obj(("tags" :> <<"a", <<Txt(scope)>>>>) @@ Renamed("operationId", op, "nickname") @@ Copied({"summary"}, op) @@ Renamed("description", op, "notes")
         @@ (IF TextField(op, "deprecated") = "true" THEN "deprecated" :> <<"b", TRUE>> ELSE <<>>)
         @@ Says("consumes", Own12(op, res, "consumes")) @@ Says("produces", Own12(op, res, "produces"))
         @@ ("security" :> <<"a", Auths12(op, res)>>)
         @@ (IF IsHttps(res) THEN "schemes" :> <<"a", <<Txt("https")>>>> ELSE <<>>)
         @@ ("parameters" :> <<"a", [i \in 1..Len(ps) |-> Param12(ps[i], scope, sep)]>>)
         @@ ("responses" :> Obj("default" :> Obj(IF TextField(op, "type") = "void" THEN <<>> ELSE "schema" :> Obj(ret)))))

(* every operation there is: [path, m, op, res, scope] *)
Opers12(docs, url) ==
  UNION {LET res == ResourceAt(docs, url, n)
             apis == ListField(res, "apis")
         IN UNION {LET ops == ListField(apis[i], "operations") IN
                   {[path |-> Path12(res, apis[i]), m |-> Lower(TextField(ops[j], "method")), op |-> ops[j], res |-> res, scope |-> n] : j \in 1..Len(ops)} : i \in 1..Len(apis)}
         : n \in ResourceNames(docs[url])}
PathItems12(docs, url, sep) ==
  LET os == TLCEval(Opers12(docs, url))
      At(p) == {o \in os : o.path = p}
      It(p, m) == CHOOSE o \in At(p) : o.m = m
  IN [p \in {o.path : o \in os} |-> Obj([m \in {o.m : o \in At(p)} |-> LET o == It(p, m) IN Oper12(o.op, o.res, o.scope, sep)])]

(* models: every model of a resource, with those of the same resource it is a sub-type of *)
Model12(res, scope, id, sep) ==
  LET ms == MapField(res, "models")
      m == ms[id]
      ups == {k \in DOMAIN ms : Txt(id) \in Range(ListField(ms[k], "subTypes"))}
      ps == MapField(m, "properties")
      refs == SetToSeq(ups)
  IN Obj(("properties" :> Obj([k \in DOMAIN ps |-> Obj(DataType(ps[k], scope, sep) @@ Copied({"description"}, ps[k]))]))
         @@ Copied({"required", "discriminator", "description"}, m)
         @@ (IF ups = {} THEN <<>> ELSE "allOf" :> <<"a", [i \in 1..Len(refs) |-> Obj("$ref" :> ModelRef(scope, TextField(ms[refs[i]], "id"), sep))]>>))
ModelPairs(docs, url) == UNION {{<<n, k>> : k \in DOMAIN MapField(ResourceAt(docs, url, n), "models")} : n \in ResourceNames(docs[url])}
Definitions12(docs, url, sep) ==
  LET ps == ModelPairs(docs, url)
      Name(p) == p[1] \o sep \o TextField(MapField(ResourceAt(docs, url, p[1]), "models")[p[2]], "id")
  IN [d \in {Name(p) : p \in ps} |-> LET p == CHOOSE p \in ps : Name(p) = d IN Model12(ResourceAt(docs, url, p[1]), p[1], p[2], sep)]

UrlIn(n, ks) == LET RECURSIVE Go(_, _)
                    Go(x, i) == IF i > Len(ks) THEN x ELSE Go(Field(x, ks[i]), i + 1)
                IN Go(n, 1)
Scheme12(a) ==
  LET t == TextField(a, "type")
      au == UrlIn(a, <<"grantTypes", "implicit", "loginEndpoint", "url">>)
      tu == UrlIn(a, <<"grantTypes", "authorization_code", "tokenEndpoint", "url">>)
      sc == ListField(a, "scopes")
      names == {TextField(sc[i], "scope") : i \in 1..Len(sc)}
  IN Obj(("type" :> Txt(IF t = "basicAuth" THEN "basic" ELSE t))
     @@ (IF sc = <<>> THEN <<>> ELSE "scopes" :> Obj([s \in names |-> LET i == CHOOSE i \in 1..Len(sc) : TextField(sc[i], "scope") = s IN Txt(TextField(sc[i], "description"))]))
     @@ (IF t = "apiKey" THEN Renamed("name", a, "keyname") @@ Renamed("in", a, "passAs")
         ELSE IF t = "oauth2" THEN Says("authorizationUrl", au) @@ Says("tokenUrl", tu)
              @@ (IF au # NONE THEN "flow" :> Txt("implicit") ELSE IF tu # NONE THEN "flow" :> Txt("accessCode") ELSE <<>>)
         ELSE <<>>))
Info12(list) ==
  LET i == Field(list, "info") IN
  Obj(Renamed("version", list, "apiVersion") @@ Copied({"title", "description"}, i) @@ Renamed("termsOfService", i, "termsOfServiceUrl")
      @@ (IF HasField(i, "contact") THEN "contact" :> Obj(Renamed("email", i, "contact")) ELSE <<>>)
      @@ (IF HasField(i, "license") \/ HasField(i, "licenseUrl") THEN "license" :> Obj(Renamed("name", i, "license") @@ Renamed("url", i, "licenseUrl")) ELSE <<>>))
Hosts12(docs, url) == {HostOf12(o.res) : o \in Opers12(docs, url)}
UpgradedDoc(docs, url, sep) ==
  LET list == docs[url]
      names == SetToSeq(ResourceNames(list))
      hosts == Hosts12(docs, url)
      au == MapField(list, "authorizations")
  IN Obj([swagger |-> Txt("2.0"), info |-> Info12(list), schemes |-> <<"a", <<Txt("http"), Txt("https")>>>>, basePath |-> Txt(""),
          host |-> Txt(IF hosts = {} THEN "" ELSE CHOOSE h \in hosts : TRUE),
          tags |-> <<"a", [i \in 1..Len(names) |-> Obj("name" :> Txt(names[i]))]>>,
          paths |-> Obj(PathItems12(docs, url, sep)), definitions |-> Obj(Definitions12(docs, url, sep)),
          securityDefinitions |-> Obj([k \in DOMAIN au |-> Scheme12(au[k])])])
=========================================================================
