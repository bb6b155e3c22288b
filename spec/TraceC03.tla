---------------------------- MODULE TraceC03 ----------------------------
(* Preparing descriptions with chains of references, and values of           *)
(* recursive models.  others: whether path items, parameters or responses    *)
(* refer to themselves (then anything but hanging is allowed).               *)
EXTENDS Cycles, TraceBase
PR == INSTANCE Prims
Facts(ses) == TLCEval([cyclic |-> SchemaCycle(ses.docs, ses.url)])
Hung(r) == r.k = "exc" /\ "Hang" \in {r.c[i] : i \in 1..Len(r.c)}
Is(r, c) == r.k = "exc" /\ c \in {r.c[i] : i \in 1..Len(r.c)}
Verdict(ses, x, e) ==
  CASE e.ev = "prepare" ->
         Clause("preparing ends", ~Hung(e.r), "an end")
         \cup (IF e.strict THEN
                 (IF x.cyclic THEN Clause("a cycle of schemas is reported", IF ses.others THEN e.r.k = "exc" ELSE Is(e.r, "CycleDetectionError"), "CycleDetectionError")
                  ELSE IF ses.others THEN {} ELSE Clause("no cycle is reported where there is none", e.r.k = "ok", "ok"))
               ELSE IF ses.others THEN {} ELSE Clause("non-strict preparation succeeds", e.r.k = "ok", "ok"))
    [] e.ev = "conv" ->
         LET c == PR!Conv(PR!MapField(ses.docs[ses.url], "definitions"), e.decl, e.v, FALSE) IN
         Clause("converting ends", ~Hung(e.r), "an end")
         \cup (IF c = PR!ANY THEN {}
               ELSE IF c = PR!ERR THEN Clause("this value must be refused", e.r.k = "exc", "an exception")
               ELSE Clause("this value must be converted", e.r.k = "val" /\ PR!Agrees(e.r.v, c[2]), c[2]))
    [] OTHER -> {"unknown event"}
=========================================================================
