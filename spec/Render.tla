--------------------------- MODULE Render ---------------------------
(* What a rendered value has to be: a member of its declaration, whatever   *)
(* the renderer draws.  Observed values are tagged like JSON values, but    *)
(*   <<"r", floor of eighths, exact, text>> a float    <<"D", text>> a date       *)
(*   <<"T", text>> a date with time  <<"U", text>> a UUID                   *)
(*   <<"F", name, length>> a file   <<"x">> anything else.                  *)
(* Options are records [minimal, max, tmpl, name, prop, str, byte, array,   *)
(* file, files].                                                            *)
EXTENDS Prims

(* ---- numbers of any size ---- *)
DigitAt(t, i) == Num(Ch(t, i))
RECURSIVE BigMod(_, _)
BigMod(t, m) == IF t = "" THEN 0 ELSE (BigMod(Upto(t, Len(t) - 1), m) * 10 + DigitAt(t, Len(t))) % m
MagText(v) == IF v[1] = "I" THEN (IF StartsWith(v[2], "-") THEN From(v[2], 2) ELSE v[2]) ELSE ToString(IF v[2] < 0 THEN 0 - v[2] ELSE v[2])
Negative(v) == IF v[1] = "I" THEN StartsWith(v[2], "-") ELSE v[2] < 0
MagLeq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                ELSE LET D == {i \in 1..Len(a) : Ch(a, i) # Ch(b, i)} IN D = {} \/ DigitAt(a, MinOf(D)) < DigitAt(b, MinOf(D))
IntLeq(a, b) == IF Negative(a) # Negative(b) THEN Negative(a)
                ELSE IF Negative(a) THEN MagLeq(MagText(b), MagText(a)) ELSE MagLeq(MagText(a), MagText(b))
(* an observed float with no more than its eighths known *)
RFits(x, exact, m) ==
  LET lo == Field(m, "minimum")
      hi == Field(m, "maximum")
      mu == Field(m, "multipleOf")
  IN /\ IsNumV(lo) => IF IsTrue(m, "exclusiveMinimum") /\ exact THEN x > Eighths(lo) ELSE x >= Eighths(lo)
     /\ IsNumV(hi) => IF IsTrue(m, "exclusiveMaximum") \/ ~exact THEN x < Eighths(hi) ELSE x <= Eighths(hi)
     /\ (IsNumV(mu) /\ x \notin {2147483647, -2147483647}) => exact /\ x % Eighths(mu) = 0     \* of huge ones no more than the sign is known
IsInteger(v) == v[1] \in {"i", "I"}
Huge(v) == IsInteger(v) /\ (v[1] = "I" \/ Len(MagText(v)) > 8)
BigFits(v, m) ==
  LET lo == Field(m, "minimum")
      hi == Field(m, "maximum")
      mu == Field(m, "multipleOf")
  IN /\ lo[1] \in {"i", "I"} => IF IsTrue(m, "exclusiveMinimum") THEN ~IntLeq(v, lo) ELSE IntLeq(lo, v)
     /\ hi[1] \in {"i", "I"} => IF IsTrue(m, "exclusiveMaximum") THEN ~IntLeq(hi, v) ELSE IntLeq(v, hi)
     /\ lo[1] = "q" => ~Negative(v)
     /\ hi[1] = "q" => Negative(v)
     /\ mu[1] = "i" => BigMod(MagText(v), mu[2]) = 0
IntFits(v, m) == IF Huge(v) \/ Huge(Field(m, "minimum")) \/ Huge(Field(m, "maximum")) THEN BigFits(v, m) ELSE NumberFits(8 * v[2], m)
InFormat(v, f) == CASE f = "int32" -> IntLeq(v, <<"i", 2147483647>>) /\ IntLeq(<<"I", "-2147483648">>, v)
                    [] f = "int64" -> IntLeq(v, <<"I", "9223372036854775807">>) /\ IntLeq(<<"I", "-9223372036854775808">>, v)
                    [] OTHER -> TRUE
AsInteger(ty, fm) == ty = "integer" \/ (ty = "number" /\ fm \in {"int32", "int64"})
NumberOk(ms, ty, fm, v) ==
  IF AsInteger(ty, fm) THEN IsInteger(v) /\ InFormat(v, fm) /\ \A i \in 1..Len(ms) : IntFits(v, ms[i])
  ELSE IF v[1] = "r" THEN \A i \in 1..Len(ms) : RFits(v[2], v[3], ms[i])
  ELSE IsInteger(v) /\ \A i \in 1..Len(ms) : IntFits(v, ms[i])

(* ---- what the members say together ---- *)
Said(ms, k) == {i \in 1..Len(ms) : HasField(ms[i], k)}
The(ms, k) == IF Said(ms, k) = {} THEN NONE ELSE Field(ms[MinOf(Said(ms, k))], k)
IntOf(ms, k, z) == LET f == The(ms, k) IN IF f[1] = "i" THEN f[2] ELSE z
EnumOf(ms) == LET e == The(ms, "enum") IN IF e[1] = "a" THEN e[2] ELSE <<>>
PropNames(ms) == UNION {DOMAIN MapField(ms[i], "properties") : i \in 1..Len(ms)}
PropOf(ms, k) == LET i == MinOf({i \in 1..Len(ms) : k \in DOMAIN MapField(ms[i], "properties")}) IN MapField(ms[i], "properties")[k]
RequiredOf(ms) == UNION {{x[2] : x \in Range(ListField(ms[i], "required"))} : i \in 1..Len(ms)}
AddpOf(ms) == The(ms, "additionalProperties")
ReadOnly(defs, ms, k) == LET q == Members(defs, PropOf(ms, k)) IN The(q, "readOnly") = <<"b", TRUE>>
TypeIn(ms) == LET t == Typed(ms) IN IF t = NONE THEN "" ELSE TextField(t, "type")
FormatIn(ms) == LET t == Typed(ms) IN IF t = NONE THEN "" ELSE TextField(t, "format")
MustHave(ms, opt) == RequiredOf(ms) \cup (PropNames(ms) \cap DOMAIN opt.tmpl)

(* an enumerated value and what is given for it *)
IsEnum(fm, e, v) ==
  CASE fm = "uuid" -> v[1] = "U" /\ e[1] = "s" /\ v[2] = UuidText(UuidHex(e[2]))
    [] fm = "date" -> v[1] = "D" /\ v[2] = e[2]
    [] fm = "date-time" -> v[1] = "T"
    [] e[1] = "q" -> v[1] = "r" /\ v[3] /\ v[2] = e[2]
    [] OTHER -> v = e \/ (e[1] = "i" /\ v[1] = "r" /\ v[3] /\ v[2] = 8 * e[2])
B64Text(t) == Len(t) % 4 = 0 /\ CharSet(t) \subseteq CharSet(UpperCase \o LowerCase \o Digits \o "+/-_=")
StringOk(ms, fm, v, opt) ==
  CASE fm = "uuid" -> v[1] = "U"
    [] fm = "date" -> v[1] = "D"
    [] fm = "date-time" -> v[1] = "T"
    [] fm = "byte" -> v[1] \in {"y", "s"} /\ B64Text(v[2]) /\ Len(v[2]) <= 4 * ((opt.byte + 2) \div 3)
    [] fm = "email" -> v[1] = "s" /\ Contains(v[2], "@")
    [] OTHER -> /\ v[1] = "s"
                /\ Len(v[2]) >= IntOf(ms, "minLength", 0)
                /\ Len(v[2]) <= IntOf(ms, "maxLength", MaxOf({opt.str, IntOf(ms, "minLength", 0)}))

RECURSIVE Sat(_, _, _, _)
SatArray(defs, ms, v, opt) ==
  LET lo == IntOf(ms, "minItems", 0) IN
  /\ v[1] = "a"
  /\ Len(v[2]) >= lo /\ Len(v[2]) <= IntOf(ms, "maxItems", MaxOf({opt.array, lo}))
  /\ \A i \in 1..Len(v[2]) : Sat(defs, The(ms, "items"), v[2][i], opt)
  /\ The(ms, "uniqueItems") = <<"b", TRUE>> => \A i, j \in 1..Len(v[2]) : i < j => v[2][i] # v[2][j]
SatObject(defs, ms, v, opt) ==
  LET have == DOMAIN v[2]
      props == PropNames(ms)
      must == MustHave(ms, opt)
      ro == {k \in props : ReadOnly(defs, ms, k)}
      addp == AddpOf(ms)
      lo == IntOf(ms, "minProperties", 0)
      hi == IntOf(ms, "maxProperties", -1)
      free == (props \ must) \ ro
  IN /\ v[1] = "o"
     /\ must \subseteq have
     /\ Cardinality(have) >= lo /\ (hi # -1 => Cardinality(have) <= hi)
     /\ \A k \in have :
          IF k \in DOMAIN opt.tmpl /\ k \in must THEN v[2][k] = opt.tmpl[k]
          ELSE IF k \in props THEN Sat(defs, PropOf(ms, k), v[2][k], opt)
          ELSE addp[1] = "o" /\ Sat(defs, addp, v[2][k], opt) /\ (k \in must \/ Len(k) <= opt.name)
     /\ have \cap (ro \ must) = {}
     /\ opt.max => free \subseteq have \/ (hi # -1 /\ Cardinality(have) = hi)
     /\ (opt.minimal /\ ~opt.max) => have \cap free = {} \/ (addp[1] # "o" /\ Cardinality(have) = lo)
     /\ (addp[1] = "o" /\ hi = -1) => Cardinality(have) <= MaxOf({lo, opt.prop, Cardinality(must \cup free)})
Sat(defs, d, v, opt) ==
  LET ms == TLCEval(Members(defs, d))
      ty == TypeIn(ms)
      fm == FormatIn(ms)
      en == EnumOf(ms)
  IN CASE ty = "object" -> SatObject(defs, ms, v, opt)
       [] ty = "array" -> SatArray(defs, ms, v, opt)
       [] ty = "file" -> v[1] = "F" /\ (IF opt.files # <<>> THEN v[2] \in Range(opt.files) ELSE v[2] = "" /\ v[3] <= opt.file)
       [] en # <<>> -> \E i \in 1..Len(en) : IsEnum(fm, en[i], v)
       [] ty \in {"integer", "number"} -> NumberOk(ms, ty, fm, v)
       [] ty = "string" -> StringOk(ms, fm, v, opt)
       [] ty = "boolean" -> v[1] = "b"
       [] OTHER -> FALSE

(* ---- what can be rendered: one of the values there certainly are ---- *)
Once(ms, ks) == \A k \in ks : Cardinality(Said(ms, k)) <= 1
Together(ms, a, b) == Said(ms, a) \subseteq Said(ms, b)
Simple(ms) == /\ Once(ms, {"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "minLength", "maxLength", "enum", "minItems", "maxItems", "uniqueItems", "items", "minProperties", "maxProperties", "additionalProperties"})
              /\ Together(ms, "exclusiveMinimum", "minimum") /\ Together(ms, "exclusiveMaximum", "maximum")
              /\ \A i, j \in Said(ms, "type") : Field(ms[i], "type") = Field(ms[j], "type") /\ Field(ms[i], "format") = Field(ms[j], "format")
              /\ Together(ms, "format", "type")
Somewhere(ms, whole) ==
  LET lo == The(ms, "minimum")
      hi == The(ms, "maximum")
  IN IF Huge(lo) \/ Huge(hi) THEN Said(ms, "multipleOf") = {} /\ (lo = NONE \/ hi = NONE)
                                        /\ (\E i \in 1..Len(ms) : IsTrue(ms[i], "exclusiveMinimum") \/ IsTrue(ms[i], "exclusiveMaximum")) => The(ms, "format") # <<"s", "int32">>
     ELSE \E x \in (-100)..100 : AllFit(IF whole THEN 8 * x ELSE x, ms)
RECURSIVE CanRender(_, _, _, _)
(* how many values are there at least (no more than 3 are counted) *)
Values(defs, d) ==
  LET ms == Members(defs, d)
      en == EnumOf(ms)
  IN IF en # <<>> THEN Cardinality(Range(en))
     ELSE CASE TypeIn(ms) = "boolean" -> 2
            [] TypeIn(ms) = "string" -> IF FormatIn(ms) = "" /\ IntOf(ms, "maxLength", 9) < 1 THEN 1 ELSE 3
            [] TypeIn(ms) \in {"integer", "number"} -> IF Huge(The(ms, "minimum")) \/ Huge(The(ms, "maximum")) THEN 3 ELSE Cardinality({x \in (-3)..20 : AllFit(8 * x, ms)})
            [] OTHER -> 1
CanRender(defs, d, opt, fuel) ==
  LET ms == TLCEval(Members(defs, d))
      ty == TypeIn(ms)
      fm == FormatIn(ms)
      en == EnumOf(ms)
      whole == AsInteger(ty, fm)
  IN IF fuel = 0 \/ ~Simple(ms) THEN FALSE
     ELSE CASE ty \in {"integer", "number"} ->
                 IF en # <<>> THEN \A i \in 1..Len(en) : IsNumV(en[i]) /\ (whole => en[i][1] = "i") /\ AllFit(Eighths(en[i]), ms) ELSE Somewhere(ms, whole)
            [] ty = "string" ->
                 IF en # <<>> THEN /\ \A i \in 1..Len(en) : en[i][1] = "s"
                                   /\ fm \in {"", "password"} => \A i \in 1..Len(en) : \A j \in 1..Len(ms) : TextFits(en[i][2], ms[j])
                                   /\ fm \notin {"", "password"} => Said(ms, "minLength") = {} /\ Said(ms, "maxLength") = {} /\ fm \in {"byte", "uuid", "date", "date-time", "email"}
                 ELSE IF fm \in {"", "password"} THEN IntOf(ms, "minLength", 0) <= IntOf(ms, "maxLength", 10000)
                 ELSE Said(ms, "minLength") = {} /\ Said(ms, "maxLength") = {} /\ fm \in {"byte", "uuid", "date", "date-time", "email"}
            [] ty = "boolean" -> TRUE
            [] ty = "file" -> TRUE
            [] ty = "array" ->
                 LET lo == IntOf(ms, "minItems", 0) IN
                 /\ Said(ms, "items") # {} /\ lo <= IntOf(ms, "maxItems", 10000)
                 /\ The(ms, "uniqueItems") = <<"b", TRUE>> => lo <= 1 \/ lo <= Values(defs, The(ms, "items"))
                 /\ CanRender(defs, The(ms, "items"), opt, fuel - 1)
            [] ty = "object" ->
                 LET props == PropNames(ms)
                     must == MustHave(ms, opt)
                     addp == AddpOf(ms)
                     lo == IntOf(ms, "minProperties", 0)
                     free == (props \ must) \ {k \in props : ReadOnly(defs, ms, k)}
                 IN /\ RequiredOf(ms) \ (props \cup DOMAIN opt.tmpl) = {} \/ addp[1] = "o"
                    /\ RequiredOf(ms) \subseteq props \/ addp[1] = "o"
                    /\ ~\E k \in RequiredOf(ms) \cap props : ReadOnly(defs, ms, k)
                    /\ IntOf(ms, "maxProperties", 10000) >= MaxOf({Cardinality(must), lo})
                    /\ lo <= Cardinality(must \cup free) \/ addp[1] = "o"
                    /\ \A k \in (must \cup free) \ DOMAIN opt.tmpl : k \in props => CanRender(defs, PropOf(ms, k), opt, fuel - 1)
                    /\ addp[1] = "o" => CanRender(defs, addp, opt, fuel - 1)
            [] OTHER -> FALSE
Renders(defs, d, opt) == CanRender(defs, d, opt, 8)

(* ---- the parameters of an operation ---- *)
DeclOf(p) == IF TextField(p, "in") = "body" THEN Field(p, "schema") ELSE p
NamesIn(ps) == {TextField(ps[i], "name") : i \in 1..Len(ps)}
ParamIn(ps, n) == ps[CHOOSE i \in 1..Len(ps) : TextField(ps[i], "name") = n]
SatAll(defs, ps, out, exclude, tmpl, minimal, max, opt) ==
  LET have == DOMAIN out
      ex == Range(exclude)
  IN /\ have \subseteq NamesIn(ps) \ ex
     /\ \A n \in NamesIn(ps) \ ex :
          /\ (n \in DOMAIN tmpl \/ IsTrue(ParamIn(ps, n), "required") \/ max) => n \in have
          /\ (n \in have /\ minimal /\ ~max) => n \in DOMAIN tmpl \/ IsTrue(ParamIn(ps, n), "required")
          /\ n \in have => IF n \in DOMAIN tmpl THEN out[n] = tmpl[n] ELSE Sat(defs, DeclOf(ParamIn(ps, n)), out[n], opt)
=====================================================================
