----------------------------- MODULE Headers -----------------------------
(* Header names ignore case: a mapping of names to values under any          *)
(* spelling, and how a client combines the headers of a request with the     *)
(* custom ones of a call.                                                    *)
EXTENDS Text

(* ---- the mapping: lower-case name -> <<last spelling, value>> ---- *)
Put(m, k, v) == (Lower(k) :> <<k, v>>) @@ m
Del(m, k)    == [x \in DOMAIN m \ {Lower(k)} |-> m[x]]
Holds(m, k)  == Lower(k) \in DOMAIN m
At(m, k)     == m[Lower(k)][2]
RECURSIVE PutAll(_, _)
PutAll(m, q) == IF q = <<>> THEN m ELSE PutAll(Put(m, q[1][1], q[1][2]), Tail(q))
Entries(m)   == {m[x] : x \in DOMAIN m}

(* ---- combining: sequences of <<name, value>> ---- *)
NamesIn(q)   == {Lower(q[i][1]) : i \in 1..Len(q)}
Vals(q, n)   == LET s == SelectSeq(q, LAMBDA x : Lower(x[1]) = n) IN [i \in 1..Len(s) |-> s[i][2]]
(* res: what was composed; req: headers of the request; cus: custom ones, in order *)
ComposedList(res, req, cus) == NamesIn(res) = NamesIn(req \o cus) /\ \A n \in NamesIn(res) : Vals(res, n) = Vals(req \o cus, n)
ComposedJoin(res, req, cus) == NamesIn(res) = NamesIn(req \o cus) /\ \A n \in NamesIn(res) : Vals(res, n) = <<Join(Vals(req \o cus, n), ",")>>
ComposedDict(res, req, cus) == /\ NamesIn(res) = NamesIn(req \o cus)
                               /\ \A n \in NamesIn(res) : IF n \in NamesIn(req) THEN Vals(res, n) = Vals(req, n) ELSE Vals(res, n)[1] \in Range(Vals(cus, n)) /\ Len(Vals(res, n)) = 1
Composed(res, req, cus, join, asdict) == IF join THEN ComposedJoin(res, req, cus)
                                         ELSE IF asdict THEN ComposedDict(res, req, cus) ELSE ComposedList(res, req, cus)
(* what a server then sees under one name: a sequence of values *)
OnWire(client, got, req, cus, n, join) ==
  LET all == Vals(req \o cus, n) IN
  IF join THEN got = <<Join(all, ",")>>
  ELSE CASE client = "tornado" -> got = all
         [] client = "requests" -> Len(got) = 1 /\ (IF n \in NamesIn(req) THEN got = Vals(req, n) ELSE got[1] \in Range(all))
         [] OTHER -> Len(got) = 1 /\ (got[1] \in Range(all) \/ got[1] = Join(all, ","))    \* WSGI keeps one value
=========================================================================
