----------------------------- MODULE Loader -----------------------------
(* Which documents a description needs, and how they are fetched: each at    *)
(* most once, under the URL it has or the one the hook maps it to.           *)
EXTENDS Swagger20
Referable == {"Schema", "Parameter", "Response", "PathItem"}
(* an object to look at: [url, cls, node]; what it refers to, as places <<reference, class>> *)
RefsBelow(url, cls, node) ==
  {<<NormRef(TextField(o.node, "$ref"), url), o.cls>> : o \in {x \in Under({[ptr |-> "#", cls |-> cls, node |-> node, up |-> "none"]}, {}) : x.cls \in Referable /\ TextField(x.node, "$ref") # ""}}
RECURSIVE GrowPlaces(_, _, _)
GrowPlaces(docs, S, new) ==
  IF new = {} THEN S
  ELSE LET more == TLCEval(UNION {LET n == Designates(docs, p[1], "") IN IF n = NONE THEN {} ELSE RefsBelow(RefUrl(p[1]), p[2], n) : p \in new} \ S)
       IN GrowPlaces(docs, S \cup more, more)
PlacesFrom(docs, url) == LET S == TLCEval(RefsBelow(url, "Swagger", docs[url])) IN GrowPlaces(docs, S, S)
Needed(docs, url) == {url} \cup {RefUrl(p[1]) : p \in PlacesFrom(docs, url)}
NeededFor(docs, ref, cls, url) == LET p == <<NormRef(ref, url), cls>> IN {RefUrl(q[1]) : q \in TLCEval(GrowPlaces(docs, {p}, {p}))}
(* hook: record URL -> URL; what is not in it is left as it is *)
Hooked(hook, u) == IF u \in DOMAIN hook THEN hook[u] ELSE u
Once(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
=========================================================================
