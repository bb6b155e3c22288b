----------------------------- MODULE Cycles -----------------------------
(* Chains of references.  A node is a place <<url, pointer>> some reference  *)
(* designates; it leads to every place referred to from the schema there,    *)
(* through properties, items, additionalProperties and allOf.                *)
EXTENDS Swagger20
SubSchemas(n) ==
  LET P == Field(n, "properties")
      A == Field(n, "allOf")
  IN (IF P[1] = "o" THEN {P[2][k] : k \in DOMAIN P[2]} ELSE {})
     \cup (IF A[1] = "a" THEN {A[2][i] : i \in 1..Len(A[2])} ELSE {})
     \cup {Field(n, f) : f \in {x \in {"items", "additionalProperties"} : Field(n, x)[1] = "o"}}
RECURSIVE RefsIn(_)
RefsIn(n) == (IF TextField(n, "$ref") = "" THEN {} ELSE {TextField(n, "$ref")}) \cup UNION {RefsIn(k) : k \in SubSchemas(n)}
Places(refs, url) == {NormRef(r, url) : r \in refs}
LeadsTo(docs, p) == LET n == Designates(docs, p, "") IN IF n = NONE THEN {} ELSE Places(RefsIn(n), RefUrl(p))
(* every place reachable, in any number of steps, from the places in S *)
RECURSIVE Grown(_, _, _)
Grown(docs, S, new) == IF new = {} THEN S
                       ELSE LET more == TLCEval((UNION {LeadsTo(docs, p) : p \in new}) \ S) IN Grown(docs, S \cup more, more)
Closure(docs, S) == Grown(docs, S, S)
(* places referred to by the schemas of the document at url *)
Given(docs, url) == UNION {Places(RefsIn(o.node), url) : o \in {x \in Objects(docs[url]) : x.cls = "Schema"}}
SchemaCycle(docs, url) ==
  LET N == TLCEval(Closure(docs, Given(docs, url)))
      E == TLCEval([p \in N |-> LeadsTo(docs, p)])
      (* drop what leads nowhere any more until nothing changes: what is left lies on a cycle or leads to one *)
  IN LET RECURSIVE Left(_)
         Left(T) == LET U == TLCEval({p \in T : E[p] \cap T # {}}) IN IF U = T THEN T ELSE Left(U)
     IN Left(N) # {}
=========================================================================
