---------------------------- MODULE MC_C01 ----------------------------
(* Design model of the reference cache.  Whatever sequence of references  *)
(* is resolved, and whichever kept object answers, the answer is what the  *)
(* reference designates in the documents.                                  *)
EXTENDS RefStore, Json
CONSTANTS MaxLen, Aligned   \* Aligned: prefixes are compared token by token

O(r) == <<"o", r>>
S(x) == <<"s", x>>
M(x) == O([description |-> S(x)])
Root == "http://h/a/s.json"
Ext  == "http://h/a/d/e.json"
Docs == (Root :> O([swagger |-> S("2.0"),
                    definitions |-> O([A |-> O([description |-> S("rA"), properties |-> O([B |-> M("rAB")])]),
                                       AB |-> M("rAB2")])])) @@
        (Ext :> O([description |-> S("e"),
                   properties |-> O([A |-> M("epA"), AB |-> O([description |-> S("epAB"), items |-> M("epABi")])]),
                   definitions |-> O([A |-> M("edA"), AB |-> M("edAB")])]))
Refs == { "#/definitions/A", "#/definitions/AB", "#/definitions/A/properties/B", "#/definitions/C", "#/definitions/A/AB",
          "d/e.json", "d/e.json#/properties/A", "d/e.json#/properties/AB", "../a/d/e.json#/properties/AB/items",
          "/a/d/e.json#/definitions/A", "http://h/a/d/e.json#/definitions/AB", "d/e.json#/definitions/ABC", "d/f.json" }

VARIABLES kept, hist, last
Init == kept = {<<Root, <<>>, "Swagger">>} /\ hist = <<>> /\ last = <<>>

Cand(u, toks) == {k \in kept : k[1] = u /\ (IF Aligned THEN IsPrefix(k[2], toks) ELSE StartsWith(Join(toks, "/"), Join(k[2], "/")))}
From_(k, toks) == Parsed(k[3], Walk(Docs[k[1]], k[2]), SubSeq(toks, Len(k[2]) + 1, Len(toks)))
Resolve(jr) ==
  LET n == NormRef(jr, Root)
      u == RefUrl(n)
      toks == PtrToks(RefFrag(n))
      ok == {k \in Cand(u, toks) : From_(k, toks) # NONE}
  IN /\ hist' = Append(hist, jr)
     /\ \/ \E k \in ok : last' = <<jr, From_(k, toks)>> /\ kept' = kept
        \/ /\ ok = {}
           /\ LET d == Designates(Docs, jr, Root) IN
              /\ last' = <<jr, d>>
              /\ kept' = IF d = NONE THEN kept ELSE kept \cup {<<u, toks, "Schema">>}
Next == Len(hist) < MaxLen /\ \E jr \in Refs : Resolve(jr)
Spec == Init /\ [][Next]_<<kept, hist, last>>

Exact == last # <<>> => last[2] = Designates(Docs, last[1], Root)
KeptView == <<kept, last>>
Emit == Len(hist) = MaxLen => PrintT(<<"@T@", ToJson(hist)>>)
=======================================================================
