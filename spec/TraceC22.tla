---------------------------- MODULE TraceC22 ----------------------------
(* Observed dates are <<"date", [y,m,d]>>, moments <<"time", [...]>>.        *)
EXTENDS Time, TraceBase
(* what a declared date / date-time makes of a value *)
Specified(decl, v) ==
  LET r == CASE v[1] = "text" -> Read(v[2])
             [] v[1] = "stamp" -> <<"time", Stamp(v[2][1], v[2][2], v[2][3])>>
             [] v[1] = "time" -> v
             [] v[1] = "date" -> v
             [] OTHER -> BAD
  IN IF r = BAD \/ r = OPEN THEN r
     ELSE IF decl = "date" THEN <<"date", DateOf(r[2])>>
     ELSE IF r[1] = "date" THEN (IF v[1] = "text" THEN <<"time", Midnight(r[2])>> ELSE OPEN)
     ELSE r
Verdict(ses, x, e) ==
  CASE e.ev = "read" ->
         LET w == Specified(e.decl, e.v) IN
         IF w = OPEN THEN {}
         ELSE IF w = BAD THEN Clause("not a date or time: must be refused", e.r.k = "exc", "an exception")
         ELSE IF e.r.k # "val" THEN {"a date or time must be accepted: specified " \o ToString(w)}
         ELSE Clause("the value denotes this moment", e.r.v = w, w)
              \cup Clause("writing and reading again gives the same value", Read(e.r.json) = w, w)
              \cup Clause("its string form is its JSON form", e.r.str = e.r.json, e.r.json)
              \cup (IF e.again.k = "open" THEN {} ELSE Clause("what is written is read back by the library", e.again.k = "val" /\ e.again.v = w, w))
    [] e.ev = "array" ->
         LET ws == [i \in 1..Len(e.vs) |-> Specified(e.decl, e.vs[i])] IN
         IF \E i \in 1..Len(ws) : ws[i] = OPEN THEN {}
         ELSE IF \E i \in 1..Len(ws) : ws[i] = BAD THEN Clause("an array with such an element must be refused", e.r.k = "exc", "an exception")
         ELSE Clause("an array of dates joins their string forms", e.r.k = "val" /\ LET p == Split(e.r.str, ",") IN Len(p) = Len(ws) /\ \A i \in 1..Len(ws) : Read(p[i]) = ws[i], ws)
    [] e.ev = "prepare" -> Clause("prepare must succeed", e.r = "ok", "ok")
    [] OTHER -> {"unknown event"}
=========================================================================
