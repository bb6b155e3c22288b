--------------------------- MODULE TraceC14 ---------------------------
EXTENDS Lookup, TraceBase
Init0(ses) == <<>>
Same(a, r) == IF a.k = "op" THEN r.k = "op" /\ r.n = a.n
              ELSE r.k = "exc" /\ a.c \in Range(r.c)
Verdict(ses, x, e) ==
  IF e.ev = "prepare" THEN
     IF Duplicate(ses.sep, ses.ops) THEN Clause("duplicate tag and id must be rejected", e.r.k = "exc" /\ "SchemaError" \in Range(e.r.c), "SchemaError")
     ELSE Clause("prepare must succeed", e.r.k = "ok", "ok")
  ELSE IF e.ev = "lookup" THEN
     LET a == Answer(ses.sep, ses.ops, Compose(ses.sep, e.names))
     IN Clause("lookup", Same(a, e.r), a)
  ELSE {"unknown event"}
=======================================================================
