---------------------------- MODULE RefStore ----------------------------
(* How references are answered: parsed objects are kept per document, under *)
(* the pointer they were loaded from; a reference is answered from any kept  *)
(* object whose pointer is a prefix of it, token by token, or loaded.        *)
EXTENDS JsonRef

(* fields of a parsed object that hold parsed objects: field -> <<shape, class>> *)
Kids(cls) ==
  CASE cls = "Swagger"  -> [definitions |-> <<"map", "Schema">>, parameters |-> <<"map", "Parameter">>,
                            responses |-> <<"map", "Response">>, paths |-> <<"map", "PathItem">>, info |-> <<"one", "Info">>]
    [] cls = "Schema"   -> [properties |-> <<"map", "Schema">>, items |-> <<"one", "Schema">>,
                            additionalProperties |-> <<"one", "Schema">>, allOf |-> <<"list", "Schema">>]
    [] cls = "Parameter" -> [schema |-> <<"one", "Schema">>, items |-> <<"one", "Items">>]
    [] cls = "Response"  -> [schema |-> <<"one", "Schema">>]
    [] cls = "PathItem"  -> [get |-> <<"one", "Operation">>, parameters |-> <<"list", "Parameter">>]
    [] cls = "Operation" -> [parameters |-> <<"list", "Parameter">>, responses |-> <<"map", "Response">>]
    [] OTHER             -> <<>>

(* the node a parsed object of class cls, parsed from node, gives for toks *)
RECURSIVE Parsed(_, _, _)
Parsed(cls, node, toks) ==
  IF toks = <<>> THEN node
  ELSE IF node[1] # "o" \/ toks[1] \notin DOMAIN Kids(cls) \/ toks[1] \notin DOMAIN node[2] THEN NONE
  ELSE LET sh == Kids(cls)[toks[1]]
           ch == node[2][toks[1]]
       IN IF sh[1] = "one" THEN Parsed(sh[2], ch, Tail(toks))
          ELSE IF Len(toks) = 1 THEN ch
          ELSE LET n == Walk(ch, <<toks[2]>>) IN IF n = NONE THEN NONE ELSE Parsed(sh[2], n, SubSeq(toks, 3, Len(toks)))

IsPrefix(p, t) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
=========================================================================
