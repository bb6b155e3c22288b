---------------------------- MODULE Prims ----------------------------
(* What a declaration (Schema, Parameter, Items, Header) makes of a value. *)
(* Results: <<"ok", primitive>>, <<"err">> (must raise) or <<"any">>       *)
(* (nothing is claimed).  Primitives are tagged like JSON values, with     *)
(*   <<"A", elements, string form, URL form>>   arrays                     *)
(*   <<"M", record>> models   <<"B", text, json>> byte   <<"U", text>> uuid *)
(*   <<"F", filename, header>> files                                       *)
(* Numbers: <<"i", n>>, <<"q", eighths>>, <<"I", digits>> (beyond 32 bit).  *)
EXTENDS JsonRef

ERR == <<"err">>
ANY == <<"any">>
NOSTR == "<not claimed>"
OK(x) == <<"ok", x>>
NULLV == <<"n">>

(* ---- reading declarations ---- *)
RECURSIVE Deref(_, _, _)
Deref(defs, d, fuel) ==
  IF fuel = 0 \/ ~HasField(d, "$ref") THEN d
  ELSE LET n == UnTok(From(TextField(d, "$ref"), 15))      \* "#/definitions/"
       IN IF n \in DOMAIN defs THEN Deref(defs, defs[n], fuel - 1) ELSE d
DerefD(defs, d) == Deref(defs, d, 20)
ListField(d, k) == LET f == Field(d, k) IN IF f[1] = "a" THEN f[2] ELSE <<>>
MapField(d, k)  == LET f == Field(d, k) IN IF f[1] = "o" THEN f[2] ELSE <<>>
IsTrue(d, k)    == Field(d, k) = <<"b", TRUE>>
(* the schema and every schema its allOf reaches, itself first *)
RECURSIVE Closure(_, _, _)
Closure(defs, d0, fuel) ==
  LET d == DerefD(defs, d0)
      m == ListField(d, "allOf")
  IN IF fuel = 0 \/ m = <<>> THEN <<d>> ELSE <<d>> \o Flat(TLCEval([i \in 1..Len(m) |-> Closure(defs, m[i], fuel - 1)]))
Members(defs, d) == Closure(defs, d, 40)

(* ---- numbers ---- *)
IsNumV(v) == v[1] \in {"i", "q"}
Eighths(v) == IF v[1] = "i" THEN 8 * v[2] ELSE v[2]
(* TLC's % is the mathematical modulus for a positive divisor *)
NumberFits(x, m) ==
  LET lo == Field(m, "minimum")
      hi == Field(m, "maximum")
      mu == Field(m, "multipleOf")
  IN /\ IsNumV(lo) => IF IsTrue(m, "exclusiveMinimum") THEN x > Eighths(lo) ELSE x >= Eighths(lo)
     /\ IsNumV(hi) => IF IsTrue(m, "exclusiveMaximum") THEN x < Eighths(hi) ELSE x <= Eighths(hi)
     /\ IsNumV(mu) => x % Eighths(mu) = 0
AllFit(x, ms) == \A i \in 1..Len(ms) : NumberFits(x, ms[i])

IsDecimal(t) == AllDigits(t) \/ (StartsWith(t, "-") /\ AllDigits(From(t, 2)))
DecNum(t) == IF StartsWith(t, "-") THEN 0 - Num(From(t, 2)) ELSE Num(t)
StripZeros(t) == LET D == {i \in 1..Len(t) : Ch(t, i) # "0"} IN IF D = {} THEN "0" ELSE From(t, MinOf(D))
BigDec(t) == IF StartsWith(t, "-") THEN "-" \o StripZeros(From(t, 2)) ELSE StripZeros(t)
TextToInt(t) == IF ~IsDecimal(t) THEN NONE
                ELSE IF Len(BigDec(t)) <= 9 THEN <<"i", DecNum(t)>> ELSE <<"I", BigDec(t)>>
FracTab == <<"0", "125", "25", "375", "5", "625", "75", "875">>
FracOf(t) == {i \in 1..8 : FracTab[i] = t}
(* decimal text with at most an eighth: digits[.fraction] *)
TextToNum8(t) ==
  LET neg == StartsWith(t, "-")
      u == IF neg THEN From(t, 2) ELSE t
      k == Find(u, ".")
      a == IF k = 0 THEN u ELSE Upto(u, k - 1)
      b == IF k = 0 THEN "0" ELSE From(u, k + 1)
  IN IF ~AllDigits(a) \/ FracOf(b) = {} \/ Len(a) > 7 THEN NONE
     ELSE LET x == 8 * Num(a) + (CHOOSE i \in FracOf(b) : TRUE) - 1 IN <<"q", IF neg THEN 0 - x ELSE x>>
FloatText(x) == LET a == IF x < 0 THEN 0 - x ELSE x
                IN (IF x < 0 THEN "-" ELSE "") \o ToString(a \div 8) \o "." \o FracTab[(a % 8) + 1]

ConvInt(ms, v) ==
  LET n == CASE v[1] = "i" -> v
             [] v[1] = "I" -> v
             [] v[1] = "q" -> IF v[2] % 8 = 0 THEN <<"i", v[2] \div 8>> ELSE NONE
             [] v[1] = "s" -> TextToInt(v[2])
             [] OTHER -> NONE
  IN IF v[1] \in {"b", "f", "y", "x"} THEN ANY
     ELSE IF n = NONE THEN ERR
     ELSE IF n[1] = "I" THEN (IF \A i \in 1..Len(ms) : ~HasField(ms[i], "minimum") /\ ~HasField(ms[i], "maximum") /\ ~HasField(ms[i], "multipleOf") THEN OK(n) ELSE ANY)
     ELSE IF AllFit(8 * n[2], ms) THEN OK(n) ELSE ERR
ConvFloat(ms, v) ==
  LET n == CASE v[1] = "i" -> <<"q", 8 * v[2]>>
             [] v[1] = "q" -> v
             [] v[1] = "s" -> TextToNum8(v[2])
             [] OTHER -> NONE
  IN IF v[1] \in {"b", "f", "I", "y", "x"} THEN ANY
     ELSE IF n = NONE THEN (IF v[1] = "s" /\ IsDecimal(v[2]) THEN ANY ELSE ERR)
     ELSE IF AllFit(n[2], ms) THEN OK(n) ELSE ERR

(* ---- text ---- *)
TextFits(t, m) ==
  LET lo == Field(m, "minLength")
      hi == Field(m, "maxLength")
      en == ListField(m, "enum")
  IN /\ lo[1] = "i" => Len(t) >= lo[2]
     /\ hi[1] = "i" => Len(t) <= hi[2]
     /\ en # <<>> => <<"s", t>> \in Range(en)
LowerSet == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Lowers == LowerSet \cup DigitSet
(* texts that certainly are (resp. are not) addresses; the others are not judged *)
PlainWord(w) == w # "" /\ CharSet(w) \subseteq Lowers
ClearlyEmail(t) ==
  LET p == Split(t, "@") IN
  Len(p) = 2 /\ PlainWord(p[1]) /\ LET q == Split(p[2], ".") IN Len(q) \in 2..3 /\ (\A i \in 1..Len(q) : PlainWord(q[i]) /\ Len(q[i]) > 1 /\ ~AllDigits(q[i])) /\ q[Len(q)] \in {"com", "org", "net"}
ClearlyNoEmail(t) == LET p == Split(t, "@") IN Len(p) = 1 \/ p[1] = "" \/ p[Len(p)] = "" \/ Contains(t, "..") \/ Contains(t, "@@")
ConvText(ms, fmt, v) ==
  LET t == CASE v[1] = "s" -> v[2]
             [] v[1] = "i" -> ToString(v[2])
             [] v[1] = "I" -> v[2]
             [] OTHER -> ""
      fits == \A i \in 1..Len(ms) : TextFits(t, ms[i])
  IN IF v[1] \notin {"s", "i", "I"} THEN ANY
     ELSE IF fmt = "email" THEN (IF ~fits \/ ClearlyNoEmail(t) THEN ERR ELSE IF ClearlyEmail(t) THEN OK(<<"s", t>>) ELSE ANY)
     ELSE IF fits THEN OK(<<"s", t>>) ELSE ERR
ConvBool(v) ==
  IF v[1] = "b" THEN OK(v)
  ELSE IF v[1] = "s" THEN (IF Lower(v[2]) = "true" THEN OK(<<"b", TRUE>>) ELSE IF Lower(v[2]) = "false" THEN OK(<<"b", FALSE>>) ELSE ERR)
  ELSE ANY

(* base64, URL-safe alphabet, of ASCII text *)
B64 == UpperCase \o LowerCase \o Digits \o "-_"
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
IsAscii(t) == CharSet(t) \subseteq CharSet(Ascii)
Code(c) == 31 + Find(Ascii, c)
RECURSIVE Base64(_, _)
Base64(t, tab) ==
  IF t = "" THEN ""
  ELSE LET n == Len(t)
           a == Code(Ch(t, 1))
           b == IF n > 1 THEN Code(Ch(t, 2)) ELSE 0
           c == IF n > 2 THEN Code(Ch(t, 3)) ELSE 0
       IN Ch(tab, a \div 4 + 1) \o Ch(tab, (a % 4) * 16 + b \div 16 + 1)
          \o (IF n > 1 THEN Ch(tab, (b % 16) * 4 + c \div 64 + 1) ELSE "=")
          \o (IF n > 2 THEN Ch(tab, (c % 64) + 1) ELSE "=")
          \o Base64(From(t, 4), tab)
ConvByte(v) == IF v[1] \in {"s", "y"} THEN (IF IsAscii(v[2]) THEN OK(<<"B", v[2], Base64(v[2], B64)>>) ELSE ANY) ELSE ERR

Hex == DigitSet \cup {"a", "b", "c", "d", "e", "f"}
(* accepted spellings: 32 hex digits, dashes anywhere, braces, urn:uuid: *)
UuidHex(t) == LET a == Lower(Replace(Replace(Replace(Replace(Lower(t), "urn:", ""), "uuid:", ""), "{", ""), "}", "")) IN Replace(a, "-", "")
UuidText(h) == SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16) \o "-" \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32)
ConvUuid(v) ==
  IF v[1] # "s" THEN (IF v[1] = "x" THEN OK(<<"U", v[2]>>) ELSE IF v[1] = "y" THEN ANY ELSE ERR)
  ELSE LET h == UuidHex(v[2])
       IN IF Len(h) = 32 /\ CharSet(h) \subseteq Hex THEN OK(<<"U", UuidText(h)>>) ELSE ERR
ConvFile(v) ==
  IF v[1] # "o" THEN ERR
  ELSE LET f == TextField(v, "filename")
           h == Field(v, "header")
       IN IF f = "" /\ ~HasField(v, "data") THEN ERR
          ELSE OK(<<"F", f, IF h = NONE THEN <<"o", <<>>>> ELSE h>>)

(* ---- string form (NONE: not claimed) ---- *)
StrOf(p) ==
  CASE p[1] = "s" -> p[2]
    [] p[1] = "i" -> ToString(p[2])
    [] p[1] = "I" -> p[2]
    [] p[1] = "q" -> FloatText(p[2])
    [] p[1] = "B" -> p[2]
    [] p[1] = "U" -> p[2]
    [] p[1] = "A" -> p[3]
    [] OTHER -> NOSTR
SepOf(f) == CASE f = "csv" -> "," [] f = "ssv" -> " " [] f = "tsv" -> "\t" [] f = "pipes" -> "|" [] OTHER -> NOSTR

(* first schema of the closure that names a type *)
Typed(ms) == LET I == {i \in 1..Len(ms) : HasField(ms[i], "type")} IN IF I = {} THEN NONE ELSE ms[MinOf(I)]
IsObjectDecl(ms) == Typed(ms) = NONE \/ TextField(Typed(ms), "type") = "object"
IsRW(v) == v

(* when two primitives are the same one: numbers, texts, booleans, arrays and     *)
(* models are compared by their value; a name missing from a model is like a null *)
RECURSIVE Dedup2(_, _)
Dedup2(q, ks) == IF q = <<>> THEN <<>>
                 ELSE LET n == Len(q)
                          r == Dedup2(SubSeq(q, 1, n - 1), SubSeq(ks, 1, n - 1))
                      IN IF \E i \in 1..(n - 1) : ks[i] = ks[n] THEN r ELSE Append(r, q[n])
RECURSIVE Exact(_)
Exact(p) == \/ p[1] \in {"s", "i", "I", "b"}
            \/ (p[1] = "A" /\ \A i \in 1..Len(p[2]) : Exact(p[2][i]))
            \/ (p[1] = "M" /\ \A k \in DOMAIN p[2] : p[2][k] # NULLV /\ Exact(p[2][k]))
RECURSIVE Conv(_, _, _, _)
ConvArray(defs, d, ms, v, write) ==
  LET fmt == IF HasField(d, "collectionFormat") THEN TextField(d, "collectionFormat") ELSE "csv"
      sep == SepOf(fmt)
      raw == IF v[1] = "a" THEN v[2]
             ELSE IF v[1] = "s" /\ sep # NOSTR THEN LET p == Split(v[2], sep) IN TLCEval([i \in 1..Len(p) |-> <<"s", p[i]>>])
             ELSE <<>>
  IN IF ~(v[1] = "a" \/ (v[1] = "s" /\ sep # NOSTR)) THEN (IF v[1] \in {"o", "y"} THEN ANY ELSE ERR)
     ELSE LET es == IF IsTrue(d, "uniqueItems") THEN Dedup(raw) ELSE raw
              cs == TLCEval([i \in 1..Len(es) |-> Conv(defs, Field(d, "items"), es[i], write)])
              open == \E i \in 1..Len(cs) : cs[i] \in {ANY, ERR}
              all == IF open THEN <<>> ELSE TLCEval([i \in 1..Len(cs) |-> cs[i][2]])
              keys == TLCEval([i \in 1..Len(all) |-> ToString(all[i])])
              firsts == {i \in 1..Len(all) : \A j \in 1..(i - 1) : keys[j] # keys[i]}
              unique == IsTrue(d, "uniqueItems") /\ ~open /\ Cardinality(firsts) < Len(all)
              r == IF unique THEN Dedup2(all, keys) ELSE all   \* different values may be converted to the same one
              fits(m) == LET lo == Field(m, "minItems")
                             hi == Field(m, "maxItems")
                             n == IF open THEN Len(es) ELSE Len(r)
                         IN (lo[1] = "i" => n >= lo[2]) /\ (hi[1] = "i" => n <= hi[2])
          IN IF \E i \in 1..Len(cs) : cs[i] = ERR THEN ERR
             ELSE IF open /\ IsTrue(d, "uniqueItems") /\ \E i \in 1..Len(ms) : HasField(ms[i], "minItems") \/ HasField(ms[i], "maxItems") THEN ANY
             ELSE IF IsTrue(d, "uniqueItems") /\ Len(all) > 1 /\ \E i \in 1..Len(all) : ~Exact(all[i]) /\ (unique \/ all[i][1] \in {"A", "M"}) THEN ANY
             ELSE IF ~(\A i \in 1..Len(ms) : fits(ms[i])) THEN ERR
             ELSE IF open THEN ANY
             ELSE LET
                      ss == TLCEval([i \in 1..Len(r) |-> StrOf(r[i])])
                      text == IF sep = NOSTR \/ NOSTR \in Range(ss) THEN NOSTR ELSE Join(ss, sep)
                      url == IF NOSTR \in Range(ss) THEN <<NOSTR>> ELSE IF fmt = "multi" THEN ss ELSE <<text>>
                  IN OK(<<"A", r, text, url>>)

ConvModel(defs, d, ms, v, write) ==
  IF v[1] # "o" THEN ERR
  ELSE
  LET given == DOMAIN v[2]
      Decl(k) == {i \in 1..Len(ms) : k \in DOMAIN MapField(ms[i], "properties")}
      PropIn(i, k) == MapField(ms[i], "properties")[k]
      props == UNION {DOMAIN MapField(ms[i], "properties") : i \in 1..Len(ms)}
      Own(k) == PropIn(MinOf(Decl(k)), k)
      DefIdx(k) == {i \in Decl(k) : HasField(DerefD(defs, PropIn(i, k)), "default")}
      defaulted == {k \in props \ given : DefIdx(k) # {}}
      (* additional properties: by the schema given for them, if there is one; not judged *)
      (* when members of allOf disagree about them                                          *)
      addps == {Field(ms[i], "additionalProperties") : i \in 1..Len(ms)}
      schemas == {a \in addps : a[1] = "o"}
      forbid == <<"b", FALSE>> \in addps
      addp == IF schemas # {} THEN CHOOSE a \in schemas : TRUE ELSE NONE
      extra == given \ props
      unclear == extra # {} /\ (Cardinality(schemas) > 1 \/ (forbid /\ Cardinality(addps) > 1))
      kept == IF forbid THEN {} ELSE extra
      disc == {TextField(ms[i], "discriminator") : i \in {j \in 1..Len(ms) : HasField(ms[j], "discriminator")}}
      Val(k) == IF k \in defaulted
                THEN LET p == DerefD(defs, PropIn(MinOf(DefIdx(k)), k)) IN Conv(defs, p, Field(p, "default"), FALSE)
                ELSE IF k \in props THEN Conv(defs, Own(k), v[2][k], write)
                ELSE IF addp[1] = "o" THEN Conv(defs, addp, v[2][k], write)
                ELSE OK(v[2][k])
      ks == (given \cap props) \cup defaulted \cup kept
      res == TLCEval([k \in ks |-> Val(k)])
      req == UNION {{x[2] : x \in Range(ListField(ms[i], "required"))} : i \in 1..Len(ms)}
      missing == req \ (given \cup defaulted \cup disc)     \* a discriminator is filled in (not judged)
      ro == {k \in given \cap props : IsTrue(DerefD(defs, Own(k)), "readOnly")}
  IN IF missing # {} \/ (write /\ ro # {}) \/ (\E k \in ks \ ((IF unclear THEN extra ELSE {}) \cup (defaulted \cap disc)) : res[k] = ERR) THEN ERR
     ELSE IF unclear \/ (req \ given) # {} \/ (\E k \in ks : res[k] \in {ANY, ERR}) THEN ANY   \* required, yet defaulted
     ELSE OK(<<"M", TLCEval([k \in ks \cup disc |-> IF k \in disc THEN <<"any">> ELSE res[k][2]])>>)

Conv(defs, d0, v0, write) ==
  LET d == DerefD(defs, d0)
      v == IF v0 = NULLV /\ HasField(d, "default") THEN Field(d, "default") ELSE v0
      ms == TLCEval(Members(defs, d))
      t == Typed(ms)
      ty == IF t = NONE THEN "" ELSE TextField(t, "type")
      fm == IF t = NONE THEN "" ELSE TextField(t, "format")
  IN IF v = NULLV THEN OK(NULLV)
     ELSE CASE ty = "integer" -> ConvInt(ms, v)
            [] ty = "number" -> IF fm \in {"int32", "int64"} THEN ConvInt(ms, v) ELSE ConvFloat(ms, v)
            [] ty = "string" -> (CASE fm \in {"byte", "binary"} -> ConvByte(v)
                                   [] fm = "uuid" -> ConvUuid(v)
                                   [] fm \in {"date", "date-time"} -> ANY       \* property C22
                                   [] OTHER -> ConvText(ms, fm, v))
            [] ty = "boolean" -> ConvBool(v)
            [] ty = "file" -> ConvFile(v)
            [] ty = "array" -> ConvArray(defs, d, ms, v, write)
            [] ty = "object" \/ (ty = "" /\ v[1] = "o") -> ConvModel(defs, d, ms, v, write)
            [] ty = "" /\ v[1] # "o" /\ (\E i \in 1..Len(ms) : HasField(ms[i], "properties")) -> ERR
            [] OTHER -> ANY

(* an observed primitive agrees with a specified one; NOSTR / "any" inside it claims nothing *)
RECURSIVE Agrees(_, _)
Agrees(o, p) ==
  IF p[1] = "any" THEN TRUE
  ELSE IF o[1] # p[1] THEN FALSE
  ELSE IF p[1] = "A" THEN /\ Len(o[2]) = Len(p[2])
                          /\ \A i \in 1..Len(p[2]) : Agrees(o[2][i], p[2][i])
                          /\ p[3] = NOSTR \/ o[3] = p[3]
                          /\ p[4] = <<NOSTR>> \/ o[4] = p[4]
  ELSE IF p[1] = "M" THEN /\ DOMAIN o[2] = DOMAIN p[2]
                          /\ \A k \in DOMAIN p[2] : Agrees(o[2][k], p[2][k])
  ELSE o = p

(* equality of models: null entries do not count *)
PyNum(v) == IF v[1] = "b" THEN (IF v[2] THEN 8 ELSE 0) ELSE Eighths(v)
RECURSIVE SamePrim(_, _)
SamePrim(a, b) ==
 IF a[1] \in {"i", "q", "b"} /\ b[1] \in {"i", "q", "b"} THEN PyNum(a) = PyNum(b)
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "M" THEN LET f(m) == {k \in DOMAIN m[2] : m[2][k] # NULLV}
                          IN f(a) = f(b) /\ \A k \in f(a) : SamePrim(a[2][k], b[2][k])
  ELSE IF a[1] = "A" THEN Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : SamePrim(a[2][i], b[2][i])
  ELSE a = b
=======================================================================
