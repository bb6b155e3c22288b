----------------------------- MODULE Compose -----------------------------
(* The aggregated form of a schema: what it says itself, then what the      *)
(* schemas of its allOf say, through references and documents.              *)
(* Values are normalized: references absolute, enum and required are sets.  *)
EXTENDS Assembled
SetLists == {"required", "enum"}
RECURSIVE Plain(_, _)
Plain(u, n) ==
  IF n[1] = "o" THEN <<"o", [k \in DOMAIN n[2] |-> IF k = "$ref" /\ n[2][k][1] = "s" THEN <<"s", NormRef(n[2][k][2], u)>>
                                                     ELSE IF k \in SetLists /\ n[2][k][1] = "a" THEN <<"set", {Plain(u, n[2][k][2][i]) : i \in 1..Len(n[2][k][2])}>>
                                                     ELSE Plain(u, n[2][k])]>>
  ELSE IF n[1] = "a" THEN <<"a", [i \in 1..Len(n[2]) |-> Plain(u, n[2][i])]>>
  ELSE n
O1(k, v) == <<"o", k :> v>>
RECURSIVE Target(_, _, _)
Target(docs, x, fuel) == IF fuel = 0 \/ TextField(x.n, "$ref") = "" THEN x ELSE Target(docs, RefPlace(docs, x), fuel - 1)
Said(x) == [k \in DOMAIN x.n[2] \ {"$ref", "allOf", "properties"} |-> Plain(x.u, O1(k, x.n[2][k]))[2][k]]
SaidProps(x) == LET p == MapField(x.n, "properties") IN [k \in DOMAIN p |-> Place(x.u, p[k])]
AllOfs(docs, x) == LET q == ListField(x.n, "allOf") IN [i \in 1..Len(q) |-> Target(docs, Place(x.u, q[i]), 20)]
(* what may be found: field -> set of values; several values only where sibling members disagree *)
Join2(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> (IF k \in DOMAIN f THEN f[k] ELSE {}) \cup (IF k \in DOMAIN g THEN g[k] ELSE {})]
RECURSIVE JoinAll(_)
JoinAll(q) == IF q = <<>> THEN <<>> ELSE Join2(q[1], JoinAll(Tail(q)))
RECURSIVE May(_, _, _)
May(docs, x, seen) ==
  LET ms == TLCEval(AllOfs(docs, x))
      sub == TLCEval(LET ok == SelectSeq(ms, LAMBDA m : m \notin seen) IN [i \in 1..Len(ok) |-> May(docs, ok[i], seen \cup {ok[i]})])
      mf == TLCEval(JoinAll([i \in 1..Len(sub) |-> sub[i].f]))
      mp == TLCEval(JoinAll([i \in 1..Len(sub) |-> sub[i].p]))
      f == Said(x)
      p == SaidProps(x)
  IN [f |-> [k \in DOMAIN f \cup DOMAIN mf |->
              IF k \in SetLists THEN {<<"set", UNION {v[2] : v \in (IF k \in DOMAIN f THEN {f[k]} ELSE {}) \cup (IF k \in DOMAIN mf THEN mf[k] ELSE {})}>>}
              ELSE IF k \in DOMAIN f THEN {f[k]} ELSE mf[k]],
      p |-> [k \in DOMAIN p \cup DOMAIN mp |-> IF k \in DOMAIN p THEN {p[k]} ELSE mp[k]]]
Aggregated(docs, x0) == LET x == Target(docs, x0, 20) IN May(docs, x, {x})
PropValues(m) == [k \in DOMAIN m.p |-> {Plain(y.u, y.n) : y \in m.p[k]}]
(* an observed aggregated form (a plain schema without allOf) *)
Fits(m, got) ==
  /\ DOMAIN got[2] \ {"allOf", "properties"} = DOMAIN m.f
  /\ \A k \in DOMAIN m.f : Plain("", O1(k, got[2][k]))[2][k] \in m.f[k]
  /\ LET g == MapField(got, "properties")
         w == PropValues(m)
     IN DOMAIN g = DOMAIN w /\ \A k \in DOMAIN w : Plain("", g[k]) \in w[k]
=========================================================================
