---------------------------- MODULE TraceC19 ----------------------------
(* Observed mappings, composed headers and headers on the wire.              *)
EXTENDS Headers, TraceBase
Empty(ses) == <<>>
(* the mapping after a step *)
After(ses, m, e) ==
  IF e.ev # "map" THEN m
  ELSE CASE e.op = "set" -> Put(m, e.k, e.v)
         [] e.op \in {"del", "pop"} -> Del(m, e.k)
         [] e.op = "setdefault" -> IF Holds(m, e.k) THEN m ELSE Put(m, e.k, e.v)
         [] e.op = "update" -> PutAll(m, e.q)
         [] e.op = "clear" -> <<>>
         [] OTHER -> m
(* what the step answers: <<"val", text>>, <<"none">> or <<"KeyError">> *)
Answer(m, e) ==
  CASE e.op \in {"set", "update", "clear"} -> <<"none">>
    [] e.op = "del" -> IF Holds(m, e.k) THEN <<"none">> ELSE <<"KeyError">>
    [] e.op \in {"pop", "item"} -> IF Holds(m, e.k) THEN <<"val", At(m, e.k)>> ELSE <<"KeyError">>
    [] e.op = "get" -> IF Holds(m, e.k) THEN <<"val", At(m, e.k)>> ELSE <<"none">>
    [] e.op = "setdefault" -> <<"val", IF Holds(m, e.k) THEN At(m, e.k) ELSE e.v>>
    [] e.op = "in" -> <<"val", IF Holds(m, e.k) THEN "yes" ELSE "no">>
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Verdict(ses, m, e) ==
  CASE e.ev = "map" ->
         LET n == TLCEval(After(ses, m, e))
             a == Answer(m, e)
         IN Clause("answer of " \o e.op, Same(e.r, a), a)
            \cup Clause("length", e.len = Cardinality(DOMAIN n), Cardinality(DOMAIN n))
            \cup Clause("items", Len(e.items) = Cardinality(DOMAIN n) /\ Range(e.items) = Entries(n), Entries(n))
            \cup Clause("names under their last spelling", Len(e.keys) = Len(e.items) /\ Range(e.keys) = {x[1] : x \in Entries(n)}, Entries(n))
            \cup UNION {Clause("looked up ignoring case", IF Holds(n, e.look[i][1]) THEN Same(e.look[i][2], <<"val", At(n, e.look[i][1])>>) ELSE e.look[i][2] = <<"none">>, <<e.look[i][1], n>>) : i \in 1..Len(e.look)}
    [] e.ev = "compose" ->
         IF e.r # "ok" THEN {"composing headers must succeed: specified ok"}
         ELSE Clause(IF e.join THEN "joined headers" ELSE IF e.asdict THEN "headers as a dict" ELSE "headers as a list",
                     Composed(e.res, e.req, e.cus, e.join, e.asdict), <<e.req, e.cus>>)
              \cup Clause("the headers given are not modified", e.kept, "unchanged")
    [] e.ev = "sent" ->
         IF e.r # "ok" THEN {"sending must succeed: specified ok"}
         ELSE UNION {LET n == n0 IN Clause("headers on the wire through " \o e.client, OnWire(e.client, Vals(e.got, n), e.req, e.cus, n, e.join), <<n, Vals(e.req \o e.cus, n)>>) : n0 \in NamesIn(e.req \o e.cus)}
              \cup Clause("the headers given are not modified", e.kept, "unchanged")
    [] e.ev = "looked" ->       \* headers of a prepared request or of a response: e.all is what was given
         UNION {LET w == Vals(e.all, Lower(e.look[i][1])) IN Clause("header of a " \o e.of \o " looked up ignoring case", Same(e.look[i][2], w), w) : i \in 1..Len(e.look)}
         \cup Clause("names of the headers of a " \o e.of, {Lower(e.keys[i]) : i \in 1..Len(e.keys)} = NamesIn(e.all) /\ Len(e.keys) = Cardinality(NamesIn(e.all)), NamesIn(e.all))
    [] OTHER -> {"unknown event"}
=========================================================================
