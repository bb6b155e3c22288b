---------------------------- MODULE TraceC05 ----------------------------
(* Aggregated schemas, as seen through the App, against what is declared.     *)
EXTENDS Compose, TraceBase
None05(ses) == <<>>
Start05(ses, e) ==
  LET n == Place(e.u, Walk(ses.docs[e.u], e.toks))
  IN IF e.field = "" THEN n ELSE Whole(ses.docs, n)[e.field]
RECURSIVE Cands(_, _, _)
Cands(docs, xs, steps) ==
  IF steps = <<>> THEN xs
  ELSE LET ms == TLCEval({Aggregated(docs, x) : x \in xs})
           k == steps[1]
           next == IF Len(k) = 2 THEN UNION {IF k[2] \in DOMAIN m.p THEN m.p[k[2]] ELSE {} : m \in ms}
                   ELSE UNION {IF k[1] \in DOMAIN m.f THEN {Place("", v) : v \in {v \in m.f[k[1]] : v[1] = "o"}} ELSE {} : m \in ms}
       IN Cands(docs, next, Tail(steps))
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("a good description is prepared", e.r.k = "ok", "ok")
    [] e.ev = "agg" ->
         IF e.r.k # "ok" THEN {"an aggregated form: specified one"} ELSE
         LET cs == TLCEval(Cands(ses.docs, {Start05(ses, e)}, e.steps))
         IN Clause("a schema aggregates exactly its members", \E y \in cs : Fits(Aggregated(ses.docs, y), e.got), {Aggregated(ses.docs, y) : y \in cs})
    [] e.ev = "declared" ->
         LET w == Plain(e.u, Walk(ses.docs[e.u], e.toks)) IN Clause("the declared schemas are left as they are", Plain("", e.got) = w, w)
    [] OTHER -> {"unknown event"}
=========================================================================
