----------------------------- MODULE MC_C10 -----------------------------
(* A client choosing scheme, content type and accepted type, then patching  *)
(* the URL: step by step, it refuses exactly when no admissible request     *)
(* exists, and otherwise sends the specified one.                           *)
EXTENDS Wire, Json
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Arr(q) == <<"a", q>>
L(q) == Arr([i \in 1..Len(q) |-> S(q[i])])
J == "application/json"
TJ == "text/json"
P == "text/plain"
X == "application/xml"
ConsumesLists == {<<>>, <<J>>, <<P>>, <<TJ, J>>, <<P, J>>, <<X>>, <<J, X>>, <<URLENC>>, <<MULTI>>, <<URLENC, MULTI>>, <<J, URLENC, MULTI>>}
ProducesLists == {<<>>, <<J>>, <<P, J>>, <<X, J>>}
SchemeLists == {<<>>, <<"http">>, <<"https">>, <<"https", "http">>, <<"http", "https">>, <<"ws">>, <<"ws", "https">>}
Kinds == {"none", "form", "file", "formfile", "body", "empty"}
NoOpt == [scheme |-> "", consume |-> "", produce |-> "", netloc |-> "", urlscheme |-> ""]
Str == [type |-> S("string")]
Params(k) == CASE k = "none" -> <<>>
               [] k = "form" -> <<O(Str @@ [name |-> S("f")] @@ ("in" :> S("formData")))>>
               [] k = "file" -> <<O([name |-> S("up"), type |-> S("file")] @@ ("in" :> S("formData")))>>
               [] k = "formfile" -> <<O(Str @@ [name |-> S("f")] @@ ("in" :> S("formData"))), O([name |-> S("up"), type |-> S("file")] @@ ("in" :> S("formData")))>>
               [] OTHER -> <<O([name |-> S("b"), schema |-> O(Str)] @@ ("in" :> S("body")))>>
Args(k) == CASE k = "form" -> [f |-> S("a&b c")]
             [] k = "file" -> [up |-> O([filename |-> S("n.txt"), data |-> S("content")])]
             [] k = "formfile" -> [f |-> S("x=y"), up |-> O([filename |-> S("n.txt"), data |-> S("content")])]
             [] k = "body" -> [b |-> S("text")]
             [] OTHER -> <<>>
VARIABLES cons, prod, schemes, at, kind, opt, phase, scheme, ct, acc, host
vars == <<cons, prod, schemes, at, kind, opt, phase, scheme, ct, acc, host>>
(* at: whether lists are declared by the operation or by the API *)
Put(r, k, q) == IF q = <<>> THEN r ELSE r @@ (k :> L(q))
Lists == Put(Put(Put(<<>>, "consumes", cons), "produces", prod), "schemes", schemes)
Doc == LET op == [parameters |-> Arr(Params(kind)), operationId |-> S("o"), responses |-> O("default" :> O([description |-> S("")]))]
           base == [swagger |-> S("2.0"), info |-> O([version |-> S("1"), title |-> S("t")]), host |-> S("h:8080"), basePath |-> S("/v1"),
                    paths |-> O("/a" :> O([post |-> O(IF at = "op" THEN op @@ Lists ELSE op)]))]
       IN O(IF at = "op" THEN base ELSE base @@ Lists)
Url == "http://h/swagger.json"
Init == /\ \/ /\ cons \in ConsumesLists /\ kind \in Kinds /\ opt \in {[NoOpt EXCEPT !.consume = c] : c \in {"", J, TJ, X}}
              /\ prod = <<>> /\ schemes = <<>>
           \/ /\ cons \in {<<>>, <<J>>} /\ kind \in {"none", "body"} /\ prod \in ProducesLists /\ opt \in {[NoOpt EXCEPT !.produce = c] : c \in {"", J, X}} /\ schemes = <<>>
           \/ /\ cons = <<>> /\ kind \in {"none"} /\ prod = <<>> /\ schemes \in SchemeLists
              /\ opt \in {[NoOpt EXCEPT !.scheme = a, !.netloc = b, !.urlscheme = c] : a \in {"", "http", "https", "ws"}, b \in {"", "other:1"}, c \in {"", "https"}}
        /\ at \in {"op", "api"}
        /\ phase = "scheme" /\ scheme = "" /\ ct = "" /\ acc = "" /\ host = ""
Keep == UNCHANGED <<cons, prod, schemes, at, kind, opt>>
Refuse == phase' = "refused" /\ UNCHANGED <<scheme, ct, acc, host>> /\ Keep
Pl == Place(<<>>, ParamsOf(Doc, "/a", "post"), Args(kind))[2]
Op == Oper(Doc, "/a", "post")
ChooseScheme == /\ phase = "scheme"
                /\ LET S0 == Range(SchemesOf(Doc, Op, Url)) \cap Transports IN
                   IF S0 = {} \/ (opt.scheme # "" /\ opt.scheme \notin S0) THEN Refuse
                   ELSE /\ scheme' \in (IF opt.scheme # "" THEN {opt.scheme} ELSE S0)
                        /\ phase' = "body" /\ UNCHANGED <<ct, acc, host>> /\ Keep
ChooseType == /\ phase = "body"
              /\ LET declared == Inherited(Doc, Op, "consumes")
                     ok(c) == declared = <<>> \/ c \in Range(declared)
                     go(c) == ct' = c /\ phase' = "accept" /\ UNCHANGED <<scheme, acc, host>> /\ Keep
                     pick == IF opt.consume # "" THEN opt.consume ELSE IF declared # <<>> THEN declared[1] ELSE J
                 IN IF kind \in {"file", "formfile"} THEN (IF ok(MULTI) THEN go(MULTI) ELSE Refuse)
                    ELSE IF kind = "form" THEN (IF ok(URLENC) THEN go(URLENC) ELSE Refuse)
                    ELSE IF kind = "body" THEN (IF ok(pick) /\ pick \in Coded THEN go(pick) ELSE Refuse)
                    ELSE go("")
ChooseAccept == /\ phase = "accept"
                /\ LET declared == Inherited(Doc, Op, "produces")
                       a == IF opt.produce # "" THEN opt.produce ELSE IF declared = <<>> THEN "" ELSE declared[1]
                   IN IF a # "" /\ declared # <<>> /\ a \notin Range(declared) THEN Refuse
                      ELSE acc' = a /\ phase' = "patch" /\ UNCHANGED <<scheme, ct, host>> /\ Keep
Patch == /\ phase = "patch" /\ phase' = "sent"
         /\ scheme' = (IF opt.urlscheme # "" THEN opt.urlscheme ELSE scheme)
         /\ host' = (IF opt.netloc # "" THEN opt.netloc ELSE "h:8080")
         /\ UNCHANGED <<ct, acc>> /\ Keep
Next == ChooseScheme \/ ChooseType \/ ChooseAccept \/ Patch
Spec == Init /\ [][Next]_vars
W == WantedRequest(Doc, Url, "/a", "post", Pl, opt)
Agrees2 == /\ phase = "refused" => W.refused
           /\ phase = "sent" => ~W.refused /\ scheme \in W.schemes /\ ct = W.ctype /\ acc = W.accept /\ host = W.netloc
Declared == phase = "sent" => /\ ct # "" /\ Inherited(Doc, Op, "consumes") # <<>> => ct \in Range(Inherited(Doc, Op, "consumes"))
                              /\ acc # "" /\ Inherited(Doc, Op, "produces") # <<>> => acc \in Range(Inherited(Doc, Op, "produces"))
Emit == phase = "scheme" => PrintT(<<"@T@", ToJson([doc |-> Doc, args |-> Args(kind), opt |-> opt])>>)
=========================================================================
