--------------------------- MODULE TraceC01 ---------------------------
EXTENDS RefStore, TraceBase
MarkOf(kind, d) == IF kind = "PathItem" THEN TextField(Field(d, "get"), "summary")
                   ELSE IF kind = "Operation" THEN TextField(d, "summary")
                   ELSE TextField(d, "description")
Expect(ses, e) == Designates(ses.docs, e.jr, e.base)
Verdict(ses, x, e) ==
  IF e.ev = "prepare" THEN Clause("prepare must succeed", e.r.k = "ok", "ok")
  ELSE IF e.ev = "resolve" THEN
    LET d == Expect(ses, e) IN
    IF d = NONE THEN Clause("a reference to nothing must raise", e.r.k = "exc", "an exception")
    ELSE IF d[1] = "o" THEN Clause("resolves to the designated object", e.r.k = "obj" /\ e.r.m = MarkOf(e.kind, d), MarkOf(e.kind, d))
    ELSE Clause("resolves to the designated value", e.r.k = "val" /\ e.r.v = d, d)
  ELSE IF e.ev = "norm" THEN Clause("normalized reference", e.r = NormRef(e.jr, e.base), NormRef(e.jr, e.base))
  ELSE {"unknown event"}
=======================================================================
