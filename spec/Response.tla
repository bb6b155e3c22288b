---------------------------- MODULE Response ----------------------------
(* A response being applied piece by piece.  State: status ("" when not      *)
(* set), header entries <<name, primitive>> in order, raw body, data.        *)
EXTENDS Codec
NoResponse == [status |-> "", header |-> <<>>, raw |-> <<"none">>, data |-> NULLV, rawonly |-> FALSE, reads |-> 0]
(* a step e: status "" or text, header sequence of <<name, text>>, raw <<"none">> or <<"raw", tagged>>,     *)
(* json: <<"none">> when the body is not JSON, else <<"json", tagged>>; text: the body read as UTF-8                                  *)
Declared(doc, op, status) == IF status = "" THEN LET rs == MapField(op, "responses") IN IF "default" \in DOMAIN rs THEN Final(doc, rs["default"]) ELSE NONE
                             ELSE ResponseOf(doc, op, status)
HeaderDecl(resp, n) == IF resp = NONE THEN NONE
                       ELSE LET hs == MapField(resp, "headers")
                                I == {k \in DOMAIN hs : Lower(k) = Lower(n)}
                            IN IF I = {} THEN NONE ELSE hs[CHOOSE k \in I : TRUE]
HeaderValue(doc, resp, h) == LET d == HeaderDecl(resp, h[1]) IN
                             IF d = NONE THEN OK(<<"s", h[2]>>) ELSE Conv(MapField(doc, "definitions"), d, <<"s", h[2]>>, FALSE)
MediaOf(hs) == LET q == SelectSeq(hs, LAMBDA x : Lower(x[1]) = "content-type") IN IF q = <<>> THEN "application/json" ELSE q[1][2][2]
(* what the body is after its codec: OK(tagged), ERR, ANY *)
Decoded(reg, mt, e, fmt) ==
  LET c == CodecFor(reg, mt) IN
  CASE c = "none" -> ERR
    [] c = "json" -> IF e.json[1] = "none" THEN ERR ELSE OK(e.json[2])
    [] c = "plain" -> IF fmt \in {"byte", "binary"} THEN OK(e.raw[2]) ELSE IF e.text[1] = "none" THEN ERR ELSE OK(e.text)
    [] OTHER -> ANY
(* next state, or <<"raise">>, or <<"any">> *)
Applied(doc, op, x, e) ==
  LET st == IF e.status # "" THEN e.status ELSE x.status
      resp == TLCEval(Declared(doc, op, st))
      conv == TLCEval([i \in 1..Len(e.header) |-> HeaderValue(doc, resp, e.header[i])])
      hs == IF \A i \in 1..Len(conv) : conv[i][1] = "ok" THEN x.header \o [i \in 1..Len(conv) |-> <<e.header[i][1], conv[i][2]>>] ELSE x.header
      reads == e.raw[1] = "raw" /\ resp # NONE /\ HasField(resp, "schema") /\ ~x.rawonly
      body == TLCEval(IF reads THEN Decoded(Builtin, MediaOf(hs), e, TextField(DerefD(MapField(doc, "definitions"), Field(resp, "schema")), "format")) ELSE OK(NULLV))
      data == TLCEval(IF ~reads THEN OK(x.data) ELSE IF body[1] # "ok" THEN body ELSE Conv(MapField(doc, "definitions"), Field(resp, "schema"), body[2], FALSE))
  IN IF \E i \in 1..Len(conv) : conv[i] = ANY THEN <<"any">>
     ELSE IF \E i \in 1..Len(conv) : conv[i] = ERR THEN <<"raise">>
     ELSE IF e.raw[1] = "raw" /\ st = "" THEN <<"raise">>
     ELSE IF data = ERR THEN <<"raise">>
     ELSE IF data = ANY \/ (e.raw[1] = "raw" /\ ~reads /\ x.reads > 0) THEN <<"any">>      \* applying a second body to one already read
     ELSE <<"next", [x EXCEPT !.status = st, !.header = hs, !.raw = IF e.raw[1] = "raw" THEN e.raw ELSE @, !.data = data[2], !.reads = @ + (IF reads THEN 1 ELSE 0)]>>
HeaderSeen(hs, n) == LET q == SelectSeq(hs, LAMBDA x : Lower(x[1]) = n) IN [i \in 1..Len(q) |-> q[i][2]]
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Agrees(a[i], b[i])
(* o: what is observed: status, raw, header <<name, values>> entries, data *)
Matches(o, x) ==
  LET N == {Lower(x.header[i][1]) : i \in 1..Len(x.header)} IN
       (IF o.status = x.status THEN {} ELSE {"status: specified " \o x.status})
  \cup (IF o.raw = x.raw THEN {} ELSE {"raw body: specified " \o ToString(x.raw)})
  \cup (IF {Lower(o.header[i][1]) : i \in 1..Len(o.header)} = N /\ Len(o.header) = Cardinality(N)
           /\ \A i \in 1..Len(o.header) : SameSeq(o.header[i][2], HeaderSeen(x.header, Lower(o.header[i][1])))
        THEN {} ELSE {"headers: specified " \o ToString(x.header)})
  \cup (IF Agrees(o.data, x.data) THEN {} ELSE {"data: specified " \o ToString(x.data)})
=========================================================================
