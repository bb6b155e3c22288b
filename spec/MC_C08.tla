----------------------------- MODULE MC_C08 -----------------------------
(* Building a model: the schema itself, then every member its allOf         *)
(* reaches, depth first, is applied to what is left of the given value      *)
(* (declared properties converted and taken out, declared defaults added,   *)
(* required names checked); the rest are additional properties.  The staged *)
(* result is the declarative one.                                           *)
EXTENDS Prims, Json
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Arr(q) == <<"a", q>>
IntP == O([type |-> S("integer")])
IntD == O([type |-> S("integer"), default |-> <<"i", 0>>])
IntR == O([type |-> S("integer"), readOnly |-> <<"b", TRUE>>])
StrP == O([type |-> S("string")])
StrD == O([type |-> S("string"), default |-> S("")])
Prop(k, p) == IF p = "-" THEN <<>> ELSE k :> (CASE p = "int" -> IntP [] p = "intd" -> IntD [] p = "intr" -> IntR [] p = "str" -> StrP [] OTHER -> StrD)
Names == [none |-> <<>>, a |-> <<S("a")>>, b |-> <<S("b")>>, z |-> <<S("z")>>]
Req(n) == IF n = "none" THEN <<>> ELSE "required" :> Arr(Names[n])
Sch(pa, pb, rq, extra) == O((IF pa = "-" /\ pb = "-" THEN <<>> ELSE "properties" :> O(Prop("a", pa) @@ Prop("b", pb))) @@ Req(rq) @@ extra)
Addp(x) == CASE x = "-" -> <<>> [] x = "no" -> "additionalProperties" :> <<"b", FALSE>> [] OTHER -> "additionalProperties" :> IntP
AllOf(m) == "allOf" :> Arr(<<m>>)
Given(k, x) == IF x = "-" THEN <<>> ELSE k :> S(x)

VARIABLES d, v, w, phase, todo, rest, made, addp
vars == <<d, v, w, phase, todo, rest, made, addp>>
Init == /\ \E oa \in {"-", "int", "intd", "intr"}, ob \in {"-", "int"}, orq \in {"none", "a", "b"}, ad \in {"-", "no", "int"},
             ma \in {"-", "str", "strd"}, mb \in {"-", "strd"}, mrq \in {"none", "a", "z"}, nest \in {"none", "flat", "deep"} :
           /\ nest = "none" => ma = "-" /\ mb = "-" /\ mrq = "none"
           /\ d = LET m == Sch(ma, mb, mrq, <<>>)
                  IN Sch(oa, ob, orq, Addp(ad) @@ (CASE nest = "none" -> <<>> [] nest = "flat" -> AllOf(m) [] OTHER -> AllOf(O(AllOf(m)))))
        /\ \E ga \in {"-", "2"}, gb \in {"-", "2"}, gz \in {"-", "3", "x"} : v = O(Given("a", ga) @@ Given("b", gb) @@ Given("z", gz))
        /\ w \in BOOLEAN
        /\ phase = "apply" /\ todo = <<d>> /\ rest = v[2] /\ made = <<>> /\ addp = {}
Restrict(f, K) == [k \in K |-> f[k]]
Refuse == phase' = "refused" /\ UNCHANGED <<d, v, w, todo, rest, made, addp>>
Apply ==
  /\ phase = "apply" /\ todo # <<>>
  /\ LET o == todo[1]
         ps == MapField(o, "properties")
         take == DOMAIN rest \cap DOMAIN ps
         res == TLCEval([k \in take |-> Conv(<<>>, ps[k], rest[k], w)])
         dflt == {k \in DOMAIN ps \ (DOMAIN made \cup take) : HasField(ps[k], "default")}
         dres == TLCEval([k \in dflt |-> Conv(<<>>, ps[k], Field(ps[k], "default"), FALSE)])
         now == DOMAIN made \cup take \cup dflt
         req == {x[2] : x \in Range(ListField(o, "required"))}
     IN IF \/ w /\ \E k \in take : IsTrue(ps[k], "readOnly")
           \/ \E k \in take : res[k] = ERR
           \/ req \ (now \cup DOMAIN rest) # {}
        THEN Refuse
        ELSE /\ made' = made @@ [k \in take |-> res[k][2]] @@ [k \in dflt |-> dres[k][2]]
             /\ rest' = Restrict(rest, DOMAIN rest \ DOMAIN ps)
             /\ todo' = ListField(o, "allOf") \o Tail(todo)
             /\ addp' = addp \cup {Field(o, "additionalProperties")}
             /\ UNCHANGED <<d, v, w, phase>>
Cleanup ==
  /\ phase = "apply" /\ todo = <<>>
  /\ LET sc == {a \in addp : a[1] = "o"}
         how == IF sc # {} THEN CHOOSE a \in sc : TRUE ELSE NONE
         res == TLCEval([k \in DOMAIN rest |-> IF sc = {} THEN OK(rest[k]) ELSE Conv(<<>>, how, rest[k], w)])
     IN IF <<"b", FALSE>> \in addp THEN phase' = "built" /\ UNCHANGED <<d, v, w, todo, rest, made, addp>>
        ELSE IF \E k \in DOMAIN rest : res[k] = ERR THEN Refuse
        ELSE phase' = "built" /\ made' = made @@ [k \in DOMAIN rest |-> res[k][2]] /\ UNCHANGED <<d, v, w, todo, rest, addp>>
Next == Apply \/ Cleanup
Spec == Init /\ [][Next]_vars
C == Conv(<<>>, d, v, w)
Declarative == /\ phase = "refused" => C \in {ERR, ANY}
               /\ phase = "built" => C = ANY \/ (C[1] = "ok" /\ C[2][2] = made)
Emit == phase = "apply" /\ todo = <<d>> /\ made = <<>> => PrintT(<<"@T@", ToJson([d |-> d, v |-> v, w |-> w])>>)
=========================================================================
