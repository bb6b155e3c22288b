--------------------------- MODULE Effective ---------------------------
(* What an operation effectively is: its own declaration together with what *)
(* it takes over from its path item and from the API (one document, local   *)
(* references only; see C04 for chains and external documents).             *)
EXTENDS Prims

PathItem(doc, p)  == MapField(doc, "paths")[p]
Oper(doc, p, m)   == Field(PathItem(doc, p), m)
LocalTarget(doc, ref) == Walk(doc, Tail(PtrSplit(From(ref, 1))))
(* own fields first, then those of what it refers to *)
RECURSIVE Merged(_, _, _)
Merged(doc, n, fuel) ==
  IF ~HasField(n, "$ref") \/ fuel = 0 THEN n
  ELSE LET t == LocalTarget(doc, TextField(n, "$ref"))
           own == [k \in DOMAIN n[2] \ {"$ref"} |-> n[2][k]]
       IN IF t = NONE THEN n ELSE <<"o", own @@ Merged(doc, t, fuel - 1)[2]>>
Final(doc, n) == Merged(doc, n, 20)
(* parameters of an operation: its own, then those of its path item it does not override (by name) *)
ParamsOf(doc, p, m) ==
  LET own == TLCEval(LET q == ListField(Oper(doc, p, m), "parameters") IN [i \in 1..Len(q) |-> Final(doc, q[i])])
      up  == TLCEval(LET q == ListField(PathItem(doc, p), "parameters") IN [i \in 1..Len(q) |-> Final(doc, q[i])])
      names == {TextField(own[i], "name") : i \in 1..Len(own)}
  IN own \o SelectSeq(up, LAMBDA x : TextField(x, "name") \notin names)
Texts(q) == [i \in 1..Len(q) |-> q[i][2]]
Inherited(doc, op, k) == IF ListField(op, k) # <<>> THEN Texts(ListField(op, k)) ELSE Texts(ListField(doc, k))
SecurityOf(doc, op) == IF HasField(op, "security") THEN ListField(op, "security") ELSE ListField(doc, "security")
SchemesOf(doc, op, url) == LET s == Inherited(doc, op, "schemes") IN IF s # <<>> THEN s ELSE IF HasScheme(url) THEN <<Scheme(url)>> ELSE <<>>
HostOf(doc, url) == LET h == TextField(doc, "host") IN IF h # "" THEN h ELSE IF HasScheme(url) /\ Authority(url) # "" THEN Authority(url) ELSE "localhost"
BasePathOf(doc) == TextField(doc, "basePath")
(* a path of the description below it *)
JoinBase(b, p) == LET RECURSIVE Cut(_)
                      Cut(x) == IF EndsWith(x, "/") THEN Cut(Upto(x, Len(x) - 1)) ELSE x
                  IN Cut(b) \o p
ResponseOf(doc, op, status) ==
  LET rs == MapField(op, "responses") IN
  IF status \in DOMAIN rs THEN Final(doc, rs[status]) ELSE IF "default" \in DOMAIN rs THEN Final(doc, rs["default"]) ELSE NONE
=========================================================================
