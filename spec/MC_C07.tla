---------------------------- MODULE MC_C07 ----------------------------
(* Building an array: split (when given as text), drop repeats, convert one *)
(* element after the other, check the length; then write it and read it     *)
(* back.  The machine agrees with the declarative conversion, and reading   *)
(* back what was written gives the same elements whenever none contains the *)
(* separator.                                                               *)
EXTENDS Prims, Json
Elems == {"", "a", "b|", "a,b", "0"}
Fmts == {"csv", "ssv", "tsv", "pipes", "multi"}
S(t) == <<"s", t>>
Decls == { <<"o", ("type" :> S("array")) @@ ("collectionFormat" :> S(f)) @@ ("items" :> <<"o", [type |-> S("string")]>>)
              @@ (IF u THEN "uniqueItems" :> <<"b", TRUE>> ELSE <<>>) @@ (IF mx = 9 THEN <<>> ELSE "maxItems" :> <<"i", mx>>)
              @@ (IF mn = 0 THEN <<>> ELSE "minItems" :> <<"i", mn>>) >> : f \in Fmts, u \in BOOLEAN, mx \in {9, 0, 2}, mn \in {0, 2} }
Lists == UNION {[1..n -> Elems] : n \in 0..3}

VARIABLES d, v, phase, todo, done, text
vars == <<d, v, phase, todo, done, text>>
Fmt == TextField(d, "collectionFormat")
Sep == SepOf(Fmt)
Tag(q) == [i \in 1..Len(q) |-> S(q[i])]
Init == /\ d \in Decls
        /\ \/ \E q \in Lists : v = <<"a", Tag(q)>>
           \/ \E q \in [1..2 -> Elems] : v = S(Join(q, IF SepOf(TextField(d, "collectionFormat")) = NOSTR THEN "," ELSE SepOf(TextField(d, "collectionFormat"))))
        /\ phase = "start" /\ todo = <<>> /\ done = <<>> /\ text = NOSTR
Start == /\ phase = "start"
         /\ IF v[1] = "s" /\ Sep = NOSTR THEN phase' = "refused" /\ UNCHANGED todo
            ELSE phase' = "convert" /\ todo' = (IF v[1] = "a" THEN v[2] ELSE Tag(Split(v[2], Sep)))
         /\ UNCHANGED <<d, v, done, text>>
Convert == /\ phase = "convert" /\ todo # <<>>
           /\ todo' = Tail(todo)
           /\ done' = IF IsTrue(d, "uniqueItems") /\ todo[1] \in Range(done) THEN done ELSE Append(done, todo[1])
           /\ UNCHANGED <<d, v, phase, text>>
Lens == /\ Field(d, "minItems")[1] = "i" => Len(done) >= Field(d, "minItems")[2]
        /\ Field(d, "maxItems")[1] = "i" => Len(done) <= Field(d, "maxItems")[2]
Check == phase = "convert" /\ todo = <<>> /\ phase' = (IF Lens THEN "built" ELSE "refused") /\ UNCHANGED <<d, v, todo, done, text>>
Write == phase = "built" /\ Sep # NOSTR /\ phase' = "written" /\ text' = Join([i \in 1..Len(done) |-> done[i][2]], Sep) /\ UNCHANGED <<d, v, todo, done>>
Next == Start \/ Convert \/ Check \/ Write
Spec == Init /\ [][Next]_vars
C == Conv(<<>>, d, v, FALSE)
Declarative == /\ phase = "refused" => C = ERR
               /\ phase = "built" => C[1] = "ok" /\ C[2][2] = done
               /\ phase = "written" => C[2][3] = text
RoundTrip == phase = "written" /\ done # <<>> /\ (\A i \in 1..Len(done) : ~Contains(done[i][2], Sep))
               => Conv(<<>>, d, S(text), FALSE)[2][2] = done
Emit == phase = "start" => PrintT(<<"@T@", ToJson([d |-> d, v |-> v])>>)
=======================================================================
