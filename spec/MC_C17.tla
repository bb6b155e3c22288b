----------------------------- MODULE MC_C17 -----------------------------
(* A description with some rules broken is visited class by class, each     *)
(* visitor adding what it finds; preparing strictly fails iff something was *)
(* found.                                                                   *)
EXTENDS Validate, Json, FiniteSetsExt
CONSTANT Most       \* how many changes at a time
S(t) == <<"s", t>>
L(q) == <<"a", q>>
Root == "http://h/d/swagger.json"
Res == "http://h/d/r"
Par(n, w, t) == Obj([name |-> S(n), paramType |-> S(w), type |-> S(t)])
End == Obj("url" :> S("http://a"))
BaseDocs ==
  (Root :> Obj([swaggerVersion |-> S("1.2"), apiVersion |-> S("1"), apis |-> L(<<Obj("path" :> S("/r"))>>), info |-> Obj([title |-> S("t"), description |-> S("d")]),
     authorizations |-> Obj([b |-> Obj("type" :> S("basicAuth")), k |-> Obj([type |-> S("apiKey"), passAs |-> S("header"), keyname |-> S("X")]),
       o |-> Obj([type |-> S("oauth2"), scopes |-> L(<<Obj("scope" :> S("w"))>>),
                  grantTypes |-> Obj([implicit |-> Obj("loginEndpoint" :> End), authorization_code |-> Obj([tokenRequestEndpoint |-> End, tokenEndpoint |-> End])])])])]))
  @@ (Res :> Obj([swaggerVersion |-> S("1.2"), basePath |-> S("http://api"),
     models |-> Obj("M" :> Obj([id |-> S("M"), properties |-> Obj([p |-> Obj("type" :> S("string")), q |-> Obj([type |-> S("array"), items |-> Obj("type" :> S("string"))])])])),
     apis |-> L(<<Obj([path |-> S("/p"), operations |-> L(<<
       Obj([method |-> S("GET"), nickname |-> S("g"), type |-> S("M"), authorizations |-> Obj([b |-> L(<<>>), o |-> L(<<Obj("scope" :> S("w"))>>)]),
            parameters |-> L(<<Par("q", "query", "string"), Par("h", "header", "integer")>>), responseMessages |-> L(<<Obj([code |-> <<"i", 400>>, message |-> S("m")])>>)]),
       Obj([method |-> S("POST"), nickname |-> S("c"), type |-> S("void"), consumes |-> L(<<S("multipart/form-data")>>), parameters |-> L(<<Par("f", "form", "File")>>)])>>)])>>)]))
G == <<"apis", "0", "operations", "0">>
C == <<"apis", "0", "operations", "1">>
Del(d, p) == <<"del", d, p>>
Put(d, p, v) == <<"put", d, p, v>>
Yes == <<"b", TRUE>>
Changes == {
  Del(Root, <<"info", "title">>), Del(Root, <<"info">>),
  Del(Root, <<"authorizations", "b", "type">>), Del(Root, <<"authorizations", "b">>), Del(Root, <<"authorizations", "k", "passAs">>), Put(Root, <<"authorizations", "k", "keyname">>, S("")),
  Del(Root, <<"authorizations", "o", "grantTypes">>), Put(Root, <<"authorizations", "o", "grantTypes">>, Obj(<<>>)), Del(Root, <<"authorizations", "o", "grantTypes", "implicit">>),
  Del(Root, <<"authorizations", "o", "grantTypes", "implicit", "loginEndpoint">>), Del(Root, <<"authorizations", "o", "grantTypes", "authorization_code", "tokenEndpoint", "url">>),
  Put(Root, <<"authorizations", "o", "scopes", "0">>, Obj(<<>>)),
  Del(Res, <<"basePath">>), Del(Res, <<"models", "M", "id">>), Del(Res, <<"models", "M", "properties", "p", "type">>), Put(Res, <<"models", "M", "properties", "p", "type">>, S("void")),
  Del(Res, <<"models", "M", "properties", "q", "items">>), Put(Res, <<"models", "M", "properties", "q", "items", "type">>, S("void")), Put(Res, <<"models", "M", "properties", "p", "uniqueItems">>, Yes),
  Del(Res, G \o <<"method">>), Del(Res, G \o <<"nickname">>), Del(Res, G \o <<"type">>), Put(Res, G \o <<"type">>, S("array")),
  Put(Res, G \o <<"authorizations", "z">>, L(<<>>)), Put(Res, G \o <<"authorizations", "k">>, L(<<Obj("scope" :> S("s"))>>)), Put(Res, G \o <<"authorizations", "o">>, L(<<Obj(<<>>)>>)),
  Put(Res, G \o <<"authorizations", "b">>, L(<<Obj("scope" :> S("s"))>>)), Put(Root, <<"authorizations", "o", "type">>, S("basicAuth")), Put(Root, <<"authorizations", "k", "type">>, S("oauth2")),
  Put(Res, G \o <<"parameters", "0", "allowMultiple">>, Yes), Put(Res, G \o <<"parameters", "0", "paramType">>, S("form")), Put(Res, G \o <<"parameters", "0", "paramType">>, S("body")),
  Put(Res, G \o <<"parameters", "0", "type">>, S("array")), Put(Res, G \o <<"parameters", "0", "type">>, S("void")), Del(Res, G \o <<"parameters", "0", "name">>),
  Del(Res, G \o <<"responseMessages", "0", "code">>), Del(Res, C \o <<"consumes">>), Put(Res, <<"consumes">>, L(<<S("multipart/form-data")>>)),
  Put(Res, C \o <<"parameters", "0", "paramType">>, S("query")), Put(Res, G \o <<"parameters", "1", "uniqueItems">>, Yes)}
RECURSIVE Change(_, _, _, _)
Change(n, toks, kind, v) ==
  IF n[1] = "a" THEN LET i == Num(toks[1]) + 1 IN
       IF i > Len(n[2]) THEN n ELSE <<"a", [n[2] EXCEPT ![i] = IF Len(toks) = 1 THEN v ELSE Change(n[2][i], Tail(toks), kind, v)]>>
  ELSE IF n[1] # "o" THEN n
  ELSE IF Len(toks) = 1 THEN (IF kind = "del" THEN Obj([k \in DOMAIN n[2] \ {toks[1]} |-> n[2][k]]) ELSE Obj((toks[1] :> v) @@ n[2]))
  ELSE IF toks[1] \in DOMAIN n[2] THEN Obj([n[2] EXCEPT ![toks[1]] = Change(n[2][toks[1]], Tail(toks), kind, v)]) ELSE n
Apply(ds, c) == [ds EXCEPT ![c[2]] = Change(ds[c[2]], c[3], c[1], IF c[1] = "put" THEN c[4] ELSE Obj(<<>>))]
RECURSIVE ApplyAll(_, _)
ApplyAll(ds, cs) == IF cs = {} THEN ds ELSE LET c == CHOOSE c \in cs : TRUE IN ApplyAll(Apply(ds, c), cs \ {c})
VARIABLES docs, todo, errs, outcome
vars == <<docs, todo, errs, outcome>>
(* the rules of an object are checked when it is visited; here by class *)
Visits(d) == {o.cls : o \in Alone12(d, Root)} \cup {"Operation", "Parameter"}
Finds(d, c) ==
  CASE c = "Operation" -> UNION {Errs(o, OperRules(o.node, d[Root])) : o \in OperObjects(d, Root)}
    [] c = "Parameter" -> UNION {UNION {Errs(p, ParamRules(p.node, o.node, o.res)) : p \in ListOf12(o, "parameters", "Parameter")} : o \in OperObjects(d, Root)}
    [] OTHER -> UNION {Errs(o, RulesOf(o)) : o \in {o \in Alone12(d, Root) : o.cls = c}}
Init == /\ \E cs \in UNION {kSubset(k, Changes) : k \in 0..Most} : docs = ApplyAll(BaseDocs, cs)
        /\ todo = Visits(docs) /\ errs = {} /\ outcome = "none"
First(V) == LET order == <<"Info", "Authorization", "Scope", "Authorizations", "GrantType", "Implicit", "LoginEndpoint", "TokenRequestEndpoint", "TokenEndpoint", "AuthorizationCode", "Resource", "Model", "Property", "Items", "ResponseMessage", "Operation", "Parameter">>
            IN order[CHOOSE i \in 1..Len(order) : order[i] \in V /\ \A j \in 1..(i - 1) : order[j] \notin V]
Visit == /\ todo # {} /\ LET c == First(todo) IN errs' = errs \cup Finds(docs, c) /\ todo' = todo \ {c}
         /\ UNCHANGED <<docs, outcome>>
Prepare(strict) == /\ todo = {} /\ outcome = "none" /\ outcome' = IF strict /\ errs # {} THEN "refused" ELSE "prepared"
                   /\ UNCHANGED <<docs, todo, errs>>
Next == Visit \/ \E strict \in BOOLEAN : Prepare(strict)
Spec == Init /\ [][Next]_vars
Complete == todo = {} => errs = Broken12(docs, Root)
Refused == outcome = "refused" => Broken12(docs, Root) # {}
(* the unchanged description is good *)
Good == docs = BaseDocs => Broken12(docs, Root) = {}
Emit == todo # Visits(docs) \/ PrintT(<<"@T@", ToJson(docs)>>)
=========================================================================
