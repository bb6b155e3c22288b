---------------------------- MODULE MC_C06 ----------------------------
(* How a scalar is converted: created from the value (which checks the     *)
(* declaration's own bounds), checked again in a second pass, then checked  *)
(* against each member of allOf, nested ones included.  Whatever the        *)
(* declaration, the outcome is the declarative one.                         *)
EXTENDS Prims, Json
Vals == -2..3
B(b) == <<"b", b>>
I(n) == <<"i", n>>
Rec(f, S) == [k \in S |-> f[k]]
Bounds == { <<lo, hi, ex, mu>> : lo \in {NONE, I(-1), I(0), I(1)}, hi \in {NONE, I(0), I(2)}, ex \in {NONE, B(TRUE)}, mu \in {NONE, I(2)} }
Mem(b) == LET full == [minimum |-> b[1], maximum |-> b[2], exclusiveMinimum |-> b[3], multipleOf |-> b[4]]
          IN [k \in {x \in DOMAIN full : full[x] # NONE} |-> full[k]]
Outer == { <<lo, hi, ex, NONE>> : lo \in {NONE, I(0)}, hi \in {NONE, I(0), I(2)}, ex \in {NONE, B(TRUE)} }
Arr(s) == <<"a", s>>
Obj(r) == <<"o", r>>
Decls == { Obj(("type" :> <<"s", ty>>) @@ Mem(o) @@ (IF nest = "none" THEN <<>> ELSE IF nest = "flat" THEN [allOf |-> Arr(<<Obj(Mem(b))>>)]
               ELSE [allOf |-> Arr(<<Obj([allOf |-> Arr(<<Obj(Mem(b))>>)])>>)])) :
             ty \in {"integer"}, o \in Outer, b \in Bounds, nest \in {"none", "flat", "nested"} }

VARIABLES d, v, phase, todo, ret
vars == <<d, v, phase, todo, ret>>
Init == /\ d \in Decls /\ v \in {I(n) : n \in Vals}
        /\ phase = "create" /\ todo = <<>> /\ ret = NONE
Refuse == phase' = "refused" /\ UNCHANGED <<d, v, todo, ret>>
Create == /\ phase = "create"
          /\ IF NumberFits(Eighths(v), d) THEN phase' = "second" /\ ret' = v /\ UNCHANGED <<d, v, todo>> ELSE Refuse
Second == /\ phase = "second"
          /\ IF NumberFits(Eighths(ret), d) THEN phase' = "members" /\ todo' = ListField(d, "allOf") /\ UNCHANGED <<d, v, ret>> ELSE Refuse
Member == /\ phase = "members" /\ todo # <<>>
          /\ IF NumberFits(Eighths(ret), todo[1])
             THEN todo' = ListField(todo[1], "allOf") \o Tail(todo) /\ UNCHANGED <<d, v, phase, ret>>
             ELSE Refuse
Finish == phase = "members" /\ todo = <<>> /\ phase' = "accepted" /\ UNCHANGED <<d, v, todo, ret>>
Next == Create \/ Second \/ Member \/ Finish
Spec == Init /\ [][Next]_vars
Declarative == /\ phase = "accepted" => Conv(<<>>, d, v, FALSE) = OK(ret)
               /\ phase = "refused" => Conv(<<>>, d, v, FALSE) = ERR
Emit == phase \in {"accepted", "refused"} => PrintT(<<"@T@", ToJson([d |-> d, v |-> v])>>)
=======================================================================
