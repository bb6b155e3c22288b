--------------------------- MODULE TracePrims ---------------------------
EXTENDS Prims, TraceBase
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" -> Clause("prepare must succeed", e.r.k = "ok", "ok")
    [] e.ev = "conv" ->
        LET c == Conv(ses.defs, e.decl, e.v, e.write) IN
        IF c = ANY THEN {}
        ELSE IF c = ERR THEN Clause("this value must be refused", e.r.k = "exc", "an exception")
        ELSE Clause("this value must be converted", e.r.k = "val" /\ Agrees(e.r.v, c[2]), c[2])
    [] e.ev = "eq" -> Clause("models are equal iff their non-null properties are", e.k = "ok" /\ e.r = SamePrim(e.a, e.b) /\ e.ne = ~e.r, SamePrim(e.a, e.b))
    [] e.ev = "kept" -> Clause("conversion must not change the value given to it", e.before = e.after, e.before)
    [] OTHER -> {"unknown event"}
=========================================================================
