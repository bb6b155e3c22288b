---------------------------- MODULE JsonRef ----------------------------
(* JSON pointers, URLs, JSON references, and what they designate in a set  *)
(* of documents.  A JSON value is a tagged tuple: <<"o", record>>,          *)
(* <<"a", seq>>, <<"s", text>>, <<"i", n>>, <<"q", eighths>>, <<"b", bool>>.*)
EXTENDS Text

NONE == <<"none">>
EscTok(t) == Replace(Replace(t, "~", "~0"), "/", "~1")
UnTok(t)  == Replace(Replace(t, "~1", "/"), "~0", "~")

(* compose tokens under a base ("" for none) *)
PtrCompose(toks, base) == LET p == Join([i \in 1..Len(toks) |-> EscTok(toks[i])], "/")
                          IN IF base = "" THEN p ELSE base \o "/" \o p
PtrSplit(p) == IF p = "" THEN <<>> ELSE LET q == Split(p, "/") IN [i \in 1..Len(q) |-> UnTok(q[i])]

(* ---- URLs: scheme "://" authority path ---- *)
HasScheme(u) == Contains(u, "://") /\ ~Contains(Upto(u, Find(u, "://")), "/")
Scheme(u)    == Upto(u, Find(u, "://") - 1)
AfterScheme(u) == From(u, Find(u, "://") + 3)
Authority(u) == LET a == AfterScheme(u) IN LET k == Find(a, "/") IN IF k = 0 THEN a ELSE Upto(a, k - 1)
UPath(u)     == LET a == AfterScheme(u) IN LET k == Find(a, "/") IN IF k = 0 THEN "" ELSE From(a, k)
Origin(u)    == Scheme(u) \o "://" \o Authority(u)
DirOf(p)     == LET k == FindLast(p, "/") IN IF k = 0 THEN "" ELSE Upto(p, k - 1)

RECURSIVE DotSegs(_, _)
DotSegs(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE IF segs[1] = "." THEN DotSegs(Tail(segs), acc)
  ELSE IF segs[1] = ".." THEN DotSegs(Tail(segs), IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
  ELSE DotSegs(Tail(segs), Append(acc, segs[1]))

AbsPath(p) == "/" \o Join(DotSegs(Split(From(p, 2), "/"), <<>>), "/")
(* the URL a relative URL denotes in the document at base *)
UrlAt(base, rel) ==
  IF HasScheme(rel) THEN rel
  ELSE Origin(base) \o AbsPath(IF StartsWith(rel, "/") THEN rel ELSE DirOf(UPath(base)) \o "/" \o rel)

RefUrl(jr)  == LET k == Find(jr, "#") IN IF k = 0 THEN jr ELSE Upto(jr, k - 1)
RefFrag(jr) == LET k == Find(jr, "#") IN IF k = 0 THEN "" ELSE From(jr, k + 1)

(* normalized reference: absolute URL, and the pointer when there is one *)
NormRef(jr, base) ==
  LET u == RefUrl(jr)
      f == RefFrag(jr)
      a == IF u = "" THEN base ELSE IF base = "" THEN u ELSE UrlAt(base, u)
  IN IF a = "" THEN "#" \o f ELSE IF f = "" THEN a ELSE a \o "#" \o f

(* ---- what a pointer designates ---- *)
IndexTok(t) == AllDigits(t) /\ Len(t) < 6 /\ (Len(t) = 1 \/ Ch(t, 1) # "0")
RECURSIVE Walk(_, _)
Walk(node, toks) ==
  IF toks = <<>> THEN node
  ELSE LET t == toks[1] IN
       IF node[1] = "o" THEN (IF t \in DOMAIN node[2] THEN Walk(node[2][t], Tail(toks)) ELSE NONE)
       ELSE IF node[1] = "a" THEN (IF IndexTok(t) /\ Num(t) < Len(node[2]) THEN Walk(node[2][Num(t) + 1], Tail(toks)) ELSE NONE)
       ELSE NONE
PtrToks(frag) == IF frag = "" THEN <<>> ELSE Tail(PtrSplit(frag))   \* frag is "" or starts with "/"
(* docs: record URL -> JSON value *)
Designates(docs, jr, base) ==
  LET n == NormRef(jr, base) IN
  IF RefUrl(n) \notin DOMAIN docs THEN NONE
  ELSE Walk(docs[RefUrl(n)], PtrToks(RefFrag(n)))
Field(node, k) == IF node[1] = "o" /\ k \in DOMAIN node[2] THEN node[2][k] ELSE NONE
HasField(node, k) == Field(node, k) # NONE
TextField(node, k) == LET f == Field(node, k) IN IF f[1] = "s" THEN f[2] ELSE ""
=======================================================================
