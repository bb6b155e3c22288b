---------------------------- MODULE MC_C18 ----------------------------
(* How a value is rendered, draw by draw: which optional properties are     *)
(* taken, which are dropped to stay below maxProperties, which are added to *)
(* reach minProperties, how many more there are; which multiple within the  *)
(* bounds; how many items.  Whatever is drawn, the result satisfies the     *)
(* declaration, and whenever a declaration can be rendered no draw is stuck.*)
EXTENDS Render, Json
S(t) == <<"s", t>>
I(n) == <<"i", n>>
B(b) == <<"b", b>>
Arr(q) == <<"a", q>>
Obj(r) == <<"o", r>>
Keep(r) == [k \in {k \in DOMAIN r : r[k] # NONE} |-> r[k]]
SetSeq(X) == LET RECURSIVE F(_)
                 F(Y) == IF Y = {} THEN <<>> ELSE LET m == CHOOSE y \in Y : TRUE IN <<S(m)>> \o F(Y \ {m})
             IN F(X)
X1 == Obj([type |-> S("string"), enum |-> Arr(<<S("x")>>)])
RO == Obj([type |-> S("string"), enum |-> Arr(<<S("x")>>), readOnly |-> B(TRUE)])
Y1 == Obj([type |-> S("string"), enum |-> Arr(<<S("y")>>)])
PropSets == { [a |-> X1], [a |-> X1, b |-> X1], [a |-> X1, b |-> X1, c |-> X1], [a |-> X1, b |-> RO], [a |-> X1, b |-> RO, c |-> X1] }
Objs == { Obj(Keep([type |-> S("object"), properties |-> Obj(p), required |-> IF q = {} THEN NONE ELSE Arr(SetSeq(q)), minProperties |-> lo, maxProperties |-> hi, additionalProperties |-> ad])) :
            p \in PropSets, q \in SUBSET {"a", "z"}, lo \in {NONE, I(1), I(2), I(3)}, hi \in {NONE, I(1), I(2), I(3)}, ad \in {NONE, Y1} }
Bnd == {NONE, I(-1), I(0), I(2)}
Ints == { Obj(Keep([type |-> S("integer"), minimum |-> lo, maximum |-> hi, exclusiveMinimum |-> a, exclusiveMaximum |-> b, multipleOf |-> m])) :
            lo \in Bnd, hi \in Bnd \cup {I(4)}, a \in {NONE, B(TRUE)}, b \in {NONE, B(TRUE)}, m \in {NONE, I(2), I(3)} }
Floats == { Obj(Keep([type |-> S("number"), minimum |-> lo, maximum |-> hi, exclusiveMinimum |-> a, exclusiveMaximum |-> b, multipleOf |-> m])) :
            lo \in {NONE, I(-1), I(0)}, hi \in {NONE, I(0), <<"q", 4>>, I(1)}, a \in {NONE, B(TRUE)}, b \in {NONE, B(TRUE)}, m \in {NONE, <<"q", 4>>} }
Enums == { Obj([type |-> S("integer"), enum |-> Arr(q)]) : q \in {<<I(0)>>, <<I(0), I(1)>>, <<I(3), I(0), I(-3)>>} }
         \cup { Obj([type |-> S("boolean"), enum |-> Arr(q)]) : q \in {<<B(FALSE)>>, <<B(TRUE)>>, <<B(FALSE), B(TRUE)>>} }
         \cup { Obj([type |-> S("string"), enum |-> Arr(q)]) : q \in {<<S("")>>, <<S(""), S("x")>>} }
         \cup { Obj([type |-> S("number"), enum |-> Arr(<<I(0)>>)]) }
Texts == { Obj(Keep([type |-> S("string"), minLength |-> lo, maxLength |-> hi])) : lo \in {NONE, I(0), I(2), I(7)}, hi \in {NONE, I(0), I(1), I(2), I(8)} }
Flags == Obj([type |-> S("boolean")])
Arrays == { Obj(Keep([type |-> S("array"), items |-> Flags, minItems |-> lo, maxItems |-> hi, uniqueItems |-> u])) :
              lo \in {NONE, I(0), I(1), I(2), I(5)}, hi \in {NONE, I(0), I(1), I(2), I(6)}, u \in {NONE, B(TRUE)} }
Base == [minimal |-> FALSE, max |-> FALSE, tmpl |-> <<>>, name |-> 3, prop |-> 3, str |-> 4, byte |-> 5, array |-> 3, file |-> 6, files |-> <<>>]
OptsO == { [Base EXCEPT !.minimal = m, !.max = x, !.tmpl = t] : m \in BOOLEAN, x \in BOOLEAN, t \in {<<>>, [b |-> S("T")], [z |-> S("T"), a |-> S("T")]} }

VARIABLES d, o, kind, phase, have, todo, out
vars == <<d, o, kind, phase, have, todo, out>>
F(k, z) == LET f == Field(d, k) IN IF f[1] = "i" THEN f[2] ELSE z
props == DOMAIN MapField(d, "properties")
req == {x[2] : x \in Range(ListField(d, "required"))}
must == req \cup (props \cap DOMAIN o.tmpl)
opn == HasField(d, "additionalProperties")
Ro(k) == IsTrue(MapField(d, "properties")[k], "readOnly")
Step == IF HasField(d, "multipleOf") THEN Eighths(Field(d, "multipleOf")) ELSE IF kind = "int" THEN 8 ELSE 1
CeilDiv(a, b) == 0 - ((0 - a) \div b)
W == 48     \* window of the unbounded side, in eighths
Low == LET m == Field(d, "minimum")
           e == IF m = NONE THEN 0 - W ELSE Eighths(m)
           k == CeilDiv(e, Step)
       IN IF m # NONE /\ IsTrue(d, "exclusiveMinimum") /\ k * Step = e THEN k + 1 ELSE k
High == LET m == Field(d, "maximum")
            e == IF m = NONE THEN W ELSE Eighths(m)
            k == e \div Step
        IN IF m # NONE /\ IsTrue(d, "exclusiveMaximum") /\ k * Step = e THEN k - 1 ELSE k
Init == /\ \/ d \in Objs /\ o \in OptsO /\ kind = "object"
           \/ d \in Ints /\ o = Base /\ kind = "int"
           \/ d \in Floats /\ o = Base /\ kind = "float"
           \/ d \in Enums /\ o = Base /\ kind = "enum"
           \/ d \in Texts /\ o = Base /\ kind = "text"
           \/ d \in Arrays /\ o = Base /\ kind = "array"
        /\ phase = "start" /\ have = {} /\ todo = {} /\ out = <<"none">>
        /\ Renders(<<>>, d, o)
Go(p, h, t, x) == phase' = p /\ have' = h /\ todo' = t /\ out' = x /\ UNCHANGED <<d, o, kind>>
Done(x) == Go("done", have, todo, x)
(* objects *)
BeginObject == kind = "object" /\ phase = "start" /\ Go("pick", must, {k \in props \ must : ~Ro(k)}, out)
Pick == /\ phase = "pick" /\ todo # {}
        /\ LET k == CHOOSE k \in todo : TRUE
           IN \/ ~(o.minimal /\ ~o.max) /\ Go("pick", have \cup {k}, todo \ {k}, out)
              \/ ~o.max /\ Go("pick", have, todo \ {k}, out)
Drop == /\ phase = "pick" /\ todo = {} /\ Cardinality(have) > F("maxProperties", 100)
        /\ \E k \in have \ must : Go("pick", have \ {k}, {}, out)
Add == /\ phase = "pick" /\ todo = {} /\ ~opn /\ Cardinality(have) < F("minProperties", 0)
       /\ \E k \in {k \in props \ have : ~Ro(k)} : Go("pick", have \cup {k}, {}, out)
More == /\ phase = "pick" /\ todo = {} /\ Cardinality(have) <= F("maxProperties", 100) /\ (opn \/ Cardinality(have) >= F("minProperties", 0))
        /\ \E n \in 0..4 :
             /\ IF opn THEN Cardinality(have) + n >= F("minProperties", 0) /\ (n > 0 => Cardinality(have) + n <= F("maxProperties", MaxOf({o.prop, F("minProperties", 0)}))) ELSE n = 0
             /\ LET extra == {"y1", "y2", "y3", "y4"}
                    new == CHOOSE X \in SUBSET extra : Cardinality(X) = n
                IN Done(<<"o", [k \in have \cup new |-> IF k \in must /\ k \in DOMAIN o.tmpl THEN o.tmpl[k] ELSE IF k \in props THEN S("x") ELSE S("y")]>>)
(* numbers, texts, arrays *)
Number == kind \in {"int", "float"} /\ phase = "start" /\ \E k \in Low..High : Done(IF kind = "int" THEN I((k * Step) \div 8) ELSE <<"r", k * Step, TRUE, "">>)
Between == kind = "float" /\ phase = "start" /\ ~HasField(d, "multipleOf") /\ \E x \in (Low..High) : (IsNumV(Field(d, "maximum")) => x < Eighths(Field(d, "maximum"))) /\ Done(<<"r", x, FALSE, "">>)
OneOf == kind = "enum" /\ phase = "start" /\ \E e \in Range(ListField(d, "enum")) : Done(IF TextField(d, "type") = "number" THEN <<"r", Eighths(e), TRUE, "">> ELSE e)
Lens(a, b, z) == F(a, 0)..F(b, MaxOf({z, F(a, 0)}))
Letters == "abcdefghij"
Text == kind = "text" /\ phase = "start" /\ \E n \in Lens("minLength", "maxLength", o.str) : Done(S(Upto(Letters, n)))
Items == /\ kind = "array" /\ phase = "start"
         /\ \E n \in Lens("minItems", "maxItems", o.array) : \E f \in [1..n -> {B(TRUE), B(FALSE)}] :
              (IsTrue(d, "uniqueItems") => Cardinality(Range(f)) = n) /\ Done(Arr(f))
Next == BeginObject \/ Pick \/ Drop \/ Add \/ More \/ Number \/ Between \/ OneOf \/ Text \/ Items
Spec == Init /\ [][Next]_vars
Sound == phase = "done" => Sat(<<>>, d, out, o)
NotStuck == phase # "done" => ENABLED Next
(* nothing that fits is out of reach *)
Reached == (kind = "int" /\ phase = "start") => \A n \in (-6)..6 : AllFit(8 * n, <<d>>) <=> (8 * n) % Step = 0 /\ (8 * n) \div Step \in Low..High
Emit == phase = "start" => PrintT(<<"@T@", ToJson([d |-> d, minimal |-> o.minimal, max |-> o.max, tmpl |-> o.tmpl])>>)
=======================================================================
