----------------------------- MODULE MC_C05 -----------------------------
(* Aggregating schemas one after another, in any order, taking the aggregated *)
(* form of a member when there is one already and the bare member otherwise:  *)
(* the result is what the members say, whatever the order was.                *)
EXTENDS Compose, Json
S(t) == <<"s", t>>
O(r) == <<"o", r>>
L(q) == <<"a", q>>
Url == "http://h/swagger.json"
R(n) == O("$ref" :> S("#/definitions/" \o n))
Names == {"A", "B", "C"}
Contents == {"none", "all", "p"}
Content(n, c) == CASE c = "none" -> <<>> [] c = "p" -> [properties |-> O([p |-> O([description |-> S(n)])])]
                   [] OTHER -> [title |-> S(n), required |-> L(<<S(n)>>), properties |-> O(("p" :> O([description |-> S(n)])) @@ (("only" \o n) :> O([type |-> S("string")])))]
Others(n) == CASE n = "A" -> <<"B", "C">> [] n = "B" -> <<"A", "C">> [] OTHER -> <<"A", "B">>
Lists(n) == LET o == Others(n) IN {<<>>, <<o[1]>>, <<o[2]>>, o, <<o[2], o[1]>>}
Def(n, c, ms, nested) == O([type |-> S("object")] @@ Content(n, c)
                   @@ (IF ms = <<>> THEN <<>> ELSE [allOf |-> IF nested THEN L(<<O([allOf |-> L([i \in 1..Len(ms) |-> R(ms[i])])])>>) ELSE L([i \in 1..Len(ms) |-> R(ms[i])])]))
VARIABLES docs, finals
vars == <<docs, finals>>
At(d, n) == Place(Url, MapField(d[Url], "definitions")[n])
Init == /\ \E ca, cb, cc \in Contents, la \in Lists("A"), lb \in Lists("B"), lc \in Lists("C") :
             /\ docs = (Url :> O([definitions |-> O([A |-> Def("A", ca, la, FALSE), B |-> Def("B", cb, lb, FALSE), C |-> Def("C", cc, lc, ca = "p")])]))
        /\ finals = <<>>
(* [f, p] of a bare schema: each field with the one value it has *)
Bare(x) == [f |-> Said(x), p |-> SaidProps(x)]
Take(acc, o) == [f |-> [k \in DOMAIN acc.f \cup DOMAIN o.f |->
                          IF k \in SetLists THEN <<"set", (IF k \in DOMAIN acc.f THEN acc.f[k][2] ELSE {}) \cup (IF k \in DOMAIN o.f THEN o.f[k][2] ELSE {})>>
                          ELSE IF k \in DOMAIN acc.f THEN acc.f[k] ELSE o.f[k]],
                 p |-> acc.p @@ o.p]
(* a stack of members, the last one first *)
RECURSIVE Work(_, _, _, _)
Work(acc, stk, seen, fs) ==
  IF stk = <<>> THEN acc
  ELSE LET x == stk[Len(stk)]
           rest == SubSeq(stk, 1, Len(stk) - 1)
       IN IF x \in seen THEN Work(acc, rest, seen, fs)
          ELSE LET names == {n \in Names : At(docs, n) = x /\ n \in DOMAIN fs}
                   o == IF names # {} THEN fs[CHOOSE n \in names : TRUE] ELSE Bare(x)
               IN Work(TLCEval(Take(acc, o)), rest \o AllOfs(docs, x), seen \cup {x}, fs)
Aggregate(n) == /\ n \notin DOMAIN finals
                /\ LET x == At(docs, n) IN finals' = (n :> TLCEval(Work(Bare(x), AllOfs(docs, x), {x}, finals))) @@ finals
                /\ UNCHANGED docs
Next == \E n \in Names : Aggregate(n)
Spec == Init /\ [][Next]_vars
Right == \A n \in DOMAIN finals :
           LET m == TLCEval(Aggregated(docs, At(docs, n)))
           IN /\ DOMAIN finals[n].f = DOMAIN m.f /\ \A k \in DOMAIN m.f : finals[n].f[k] \in m.f[k]
              /\ DOMAIN finals[n].p = DOMAIN m.p /\ \A k \in DOMAIN m.p : finals[n].p[k] \in m.p[k]
Emit == DOMAIN finals # {} \/ PrintT(<<"@T@", ToJson(docs[Url])>>)
=========================================================================
