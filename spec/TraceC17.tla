---------------------------- MODULE TraceC17 ----------------------------
(* What validating reports, and what strict and lenient preparation do.     *)
EXTENDS Validate, TraceBase
Init17(ses) == TLCEval(Broken(ses.docs, ses.url))
Is17(r, c) == r.k = "exc" /\ c \in Range(r.c)
(* errors that leave nothing without which there is no operation, parameter or model *)
Usable(x) == \A e \in x : e[2] \in {"Info", "Authorization", "Scope", "GrantType", "Implicit", "LoginEndpoint", "TokenRequestEndpoint", "TokenEndpoint", "AuthorizationCode", "ResponseMessage", "Schema"}
                          \/ StartsWith(e[3], "auth ") \/ StartsWith(e[3], "File ") \/ StartsWith(e[3], "uniqueItems") \/ StartsWith(e[3], "body parameter")
LenientOf(ses) == (CHOOSE e \in Range(ses.events) : e.ev = "lenient").r
Verdict17(ses, x, e) ==
  CASE e.ev = "load" -> Clause("the description is loaded", e.r.k = "ok", "ok")
    [] e.ev = "validate" -> IF e.r.k # "ok" THEN {"validating never fails: specified a list of errors"}
                            ELSE Clause("the errors reported", Range(e.errs) = x, x) \cup Clause("each error is reported once", Len(e.errs) = Cardinality(x), Cardinality(x))
    [] e.ev = "strict" -> Clause("strict validation fails iff there are errors", IF x = {} THEN e.r.k = "ok" ELSE Is17(e.r, "ValidationError"), x)
    [] e.ev = "prepare" -> Clause("strict preparation fails for errors", IF x # {} THEN Is17(e.r, "ValidationError")
                                                                         ELSE Is17(e.r, "CycleDetectionError") \/ (e.r.k = LenientOf(ses).k /\ ~Is17(e.r, "ValidationError")), x)
    [] e.ev = "lenient" -> Clause("lenient preparation never fails for errors", ~Is17(e.r, "ValidationError") /\ (ses.kind = "sound" /\ Usable(x) => e.r.k = "ok"), "success")
    [] OTHER -> {"unknown event"}
=========================================================================
