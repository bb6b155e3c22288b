---------------------------- MODULE Request ----------------------------
(* From a call to what is on the wire.  Place: ERR (an exception), BADCALL  *)
(* (a ValueError), ANY (nothing claimed) or OK with what goes where.        *)
EXTENDS Effective

(* ---- placing arguments (C09) ---- *)
Where(p)  == TextField(p, "in")
PName(p)  == TextField(p, "name")
IsFileP(p) == Where(p) = "formData" /\ (TextField(p, "type") = "file" \/ (HasField(p, "items") /\ TextField(Field(p, "items"), "type") = "file"))
DeclOf(p) == IF Where(p) = "body" THEN Field(p, "schema") ELSE p
Used(p, args)  == HasField(p, "default") \/ PName(p) \in DOMAIN args
ValueOf(p, args) == IF PName(p) \in DOMAIN args THEN args[PName(p)] ELSE Field(p, "default")
Missing(ps, args) == {PName(ps[i]) : i \in {j \in 1..Len(ps) : IsTrue(ps[j], "required") /\ ~Used(ps[j], args)}}
UnknownArgs(ps, args) == DOMAIN args \ {PName(ps[i]) : i \in 1..Len(ps)}
EntriesOf(c) == IF c[1] = "A" THEN c[4] ELSE <<StrOf(c)>>
(* files of a parameter: <<filename, header>> each *)
FilesOf(c) == IF c[1] = "A" THEN [i \in 1..Len(c[2]) |-> <<c[2][i][2], c[2][i][3]>>] ELSE <<<<c[2], c[3]>>>>
Convs(defs, ps, args) == [i \in 1..Len(ps) |-> IF Used(ps[i], args) THEN Conv(defs, DeclOf(ps[i]), ValueOf(ps[i], args), TRUE) ELSE NONE]
BADCALL == <<"badcall">>
(* NULLV has no string form *)
Place(defs, ps, args) ==
  LET cs == TLCEval(Convs(defs, ps, args))
      I(loc) == {i \in 1..Len(ps) : cs[i] # NONE /\ ~IsFileP(ps[i]) /\ Where(ps[i]) = loc}
      Nm(S) == {PName(ps[i]) : i \in S}
      The(S, n) == CHOOSE i \in S : PName(ps[i]) = n
      F == {i \in 1..Len(ps) : cs[i] # NONE /\ IsFileP(ps[i])}
      null == \E i \in 1..Len(ps) : cs[i] # NONE /\ Len(cs[i]) = 2 /\ cs[i][2] = NULLV
  IN IF \E i \in 1..Len(ps) : cs[i] = ERR THEN ERR
     ELSE IF Missing(ps, args) # {} \/ UnknownArgs(ps, args) # {} THEN (IF \E i \in 1..Len(ps) : cs[i] = ANY THEN ERR ELSE BADCALL)
     ELSE IF null \/ \E i \in 1..Len(ps) : cs[i] = ANY THEN ANY
     ELSE OK([path   |-> TLCEval([n \in Nm(I("path")) |-> StrOf(cs[The(I("path"), n)][2])]),
              header |-> TLCEval([n \in Nm(I("header")) |-> StrOf(cs[The(I("header"), n)][2])]),
              query  |-> TLCEval([n \in Nm(I("query")) |-> EntriesOf(cs[The(I("query"), n)][2])]),
              form   |-> TLCEval([n \in Nm(I("formData")) |-> EntriesOf(cs[The(I("formData"), n)][2])]),
              file   |-> TLCEval([n \in Nm(F) |-> FilesOf(cs[The(F, n)][2])]),
              body   |-> TLCEval(IF I("body") = {} THEN <<>> ELSE <<cs[CHOOSE i \in I("body") : TRUE][2]>>)])
HasForm(pl) == \E n \in DOMAIN pl.form : pl.form[n] # <<>>

(* ---- reading what was sent ---- *)
HexVal(c) == LET k == Find("0123456789abcdef", Lower(c)) IN k - 1
E9 == "é"
FC == "ü"
E4 == "ä"
RECURSIVE Pct(_, _)
Pct(t, plus) ==
  IF t = "" THEN ""
  ELSE LET c == Ch(t, 1) IN
       IF c = "%" /\ Len(t) >= 3 THEN
         LET h == Lower(SubSeq(t, 2, 3))
             n == 16 * HexVal(Ch(h, 1)) + HexVal(Ch(h, 2))
         IN IF h = "c3" /\ Len(t) >= 6 THEN (LET l == Lower(SubSeq(t, 5, 6)) IN (CASE l = "a9" -> E9 [] l = "bc" -> FC [] l = "a4" -> E4 [] OTHER -> "?")) \o Pct(From(t, 7), plus)
            ELSE (IF n \in 32..126 THEN Ch(Ascii, n - 31) ELSE CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 13 -> "\r" [] OTHER -> "?") \o Pct(From(t, 4), plus)
       ELSE IF c = "+" /\ plus THEN " " \o Pct(From(t, 2), plus)
       ELSE c \o Pct(From(t, 2), plus)
(* urlencoded text -> sequence of <<name, value>> *)
FormPairs(t) == IF t = "" THEN <<>>
                ELSE LET q == Split(t, "&") IN [i \in 1..Len(q) |-> LET k == Find(q[i], "=") IN IF k = 0 THEN <<Pct(q[i], TRUE), "">> ELSE <<Pct(Upto(q[i], k - 1), TRUE), Pct(From(q[i], k + 1), TRUE)>>]
(* values of each name, in order *)
ByName(pairs) == LET N == {pairs[i][1] : i \in 1..Len(pairs)} IN
                 TLCEval([n \in N |-> LET q == SelectSeq(pairs, LAMBDA x : x[1] = n) IN [i \in 1..Len(q) |-> q[i][2]]])
Claimed(t, w) == w = NOSTR \/ t = w
ClaimedSeq(q, w) == w = <<NOSTR>> \/ (Len(q) = Len(w) /\ \A i \in 1..Len(q) : Claimed(q[i], w[i]))
(* names without entries send nothing *)
SameEntries(o, w) == LET N == {n \in DOMAIN w : w[n] # <<>>} IN DOMAIN o = N /\ \A n \in N : ClaimedSeq(o[n], w[n])
(* a path against a template: each {name} is one segment or part of one *)
RECURSIVE Fill(_, _)
Fill(t, vals) == LET a == Find(t, "{")
                     b == Find(t, "}")
                     n == SubSeq(t, a + 1, b - 1)
                 IN IF a = 0 \/ b < a THEN t
                    ELSE Upto(t, a - 1) \o (IF n \in DOMAIN vals THEN vals[n] ELSE "{" \o n \o "}") \o Fill(From(t, b + 1), vals)
PathFits(raw, template, vals) ==
  LET q == Split(raw, "/")
      w == Split(template, "/")
  IN \/ \E n \in DOMAIN vals : vals[n] = NOSTR
     \/ Len(q) = Len(w) /\ \A i \in 1..Len(q) : Pct(q[i], FALSE) = Fill(w[i], vals)

(* a decoded JSON body against the value it must carry *)
RECURSIVE JsonAgrees(_, _)
JsonAgrees(o, p) ==
  CASE p[1] = "any" -> TRUE
    [] p[1] = "A" -> o[1] = "a" /\ Len(o[2]) = Len(p[2]) /\ \A i \in 1..Len(p[2]) : JsonAgrees(o[2][i], p[2][i])
    [] p[1] = "M" -> o[1] = "o" /\ DOMAIN o[2] = DOMAIN p[2] /\ \A k \in DOMAIN p[2] : JsonAgrees(o[2][k], p[2][k])
    [] p[1] = "B" -> o[1] = "s" /\ o[2] = p[3]
    [] p[1] = "U" -> o[1] = "s" /\ o[2] = p[2]
    [] OTHER -> o = p

(* ---- the body (C10) ---- *)
URLENC == "application/x-www-form-urlencoded"
MULTI == "multipart/form-data"
Coded == {"application/json", "text/json", "text/plain"}
(* content type sent, "" when there is no body, "!" when the call must be refused *)
ContentType(consumes, consume, pl) ==
  IF DOMAIN pl.file # {} THEN (IF consumes # <<>> /\ MULTI \notin Range(consumes) THEN "!" ELSE MULTI)
  ELSE IF HasForm(pl) THEN (IF consumes # <<>> /\ URLENC \notin Range(consumes) THEN "!" ELSE URLENC)
  ELSE IF pl.body # <<>> THEN
     LET c == IF consume # "" THEN consume ELSE IF consumes # <<>> THEN consumes[1] ELSE "application/json"
     IN IF consumes # <<>> /\ c \notin Range(consumes) THEN "!" ELSE c
  ELSE ""
Accept(produces, produce) ==
  LET a == IF produce # "" THEN produce ELSE IF produces # <<>> THEN produces[1] ELSE ""
  IN IF a # "" /\ produces # <<>> /\ a \notin Range(produces) THEN "!" ELSE a
(* parts: <<name, "f" for files, file name, type, content>> *)
PartsFit(parts, pl, files) ==
  LET fld == SelectSeq(parts, LAMBDA x : x[2] = "")
      fil == SelectSeq(parts, LAMBDA x : x[2] # "")
      FN == {fil[i][1] : i \in 1..Len(fil)}
      Of(n) == SelectSeq(fil, LAMBDA x : x[1] = n)
  IN /\ SameEntries(ByName([i \in 1..Len(fld) |-> <<fld[i][1], fld[i][5]>>]), pl.form)
     /\ FN = {n \in DOMAIN pl.file : pl.file[n] # <<>>}
     /\ \A n \in FN : /\ Len(Of(n)) = Len(pl.file[n])
                      /\ \A i \in 1..Len(Of(n)) :
                            LET o == Of(n)[i]
                                w == pl.file[n][i]
                                ct == TextField(w[2], "Content-Type")
                            IN /\ o[3] = w[1]
                               /\ ct # "" => o[4] = ct
                               /\ Len(o) > 5 => o[6] = TextField(w[2], "Content-Transfer-Encoding")
                               /\ o[5] = files[w[1]]
BodyFits(body, ct, pl, files) ==
  CASE ct = "" -> body = <<"none">>
    [] ct = MULTI -> body[1] = "parts" /\ PartsFit(body[2], pl, files)
    [] ct = URLENC -> body[1] = "form" /\ SameEntries(ByName(FormPairs(body[2])), pl.form)
    [] ct \in {"application/json", "text/json"} -> body[1] = "json" /\ JsonAgrees(body[2], pl.body[1])
    [] ct = "text/plain" -> (pl.body[1][1] # "s") \/ (pl.body[1][2] = "" /\ body = <<"none">>) \/ body = <<"text", pl.body[1][2]>>
    [] OTHER -> TRUE
=========================================================================
