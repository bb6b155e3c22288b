----------------------------- MODULE MC_C09 -----------------------------
(* Calling an operation: parameters are taken one after another; each one   *)
(* is skipped, refused, or converted and put into the container of its      *)
(* location; arguments nobody took are refused at the end.  What has been   *)
(* collected is what Place() says.                                          *)
EXTENDS Request, Json
CONSTANT Slots
S(t) == <<"s", t>>
O(r) == <<"o", r>>
Arr(q) == <<"a", q>>
I(n) == <<"i", n>>
T == <<"b", TRUE>>
Kinds == {"none", "path", "qreq", "qdef", "qmulti", "qcsv", "hdr", "hcsv", "form", "fmulti", "body", "file", "files"}
Decl(k, n) ==
  LET b == [name |-> S(n)] @@ ("in" :> S(CASE k = "path" -> "path" [] k \in {"qreq", "qdef", "qmulti", "qcsv"} -> "query" [] k \in {"hdr", "hcsv"} -> "header" [] k = "body" -> "body" [] OTHER -> "formData"))
      int == [type |-> S("integer"), maximum |-> I(5)]
      arr(f) == [type |-> S("array"), items |-> O(int), collectionFormat |-> S(f)]
  IN O(b @@ (CASE k = "path" -> [type |-> S("string"), required |-> T]
               [] k = "qreq" -> int @@ [required |-> T]
               [] k = "qdef" -> int @@ [default |-> I(0), required |-> T]
               [] k = "qmulti" -> arr("multi")
               [] k = "qcsv" -> arr("pipes")
               [] k = "hdr" -> [type |-> S("string"), required |-> T, maxLength |-> I(3)]
               [] k = "hcsv" -> arr("csv") @@ [default |-> Arr(<<I(2), I(0)>>)]
               [] k = "form" -> [type |-> S("boolean")]
               [] k = "fmulti" -> arr("multi")
               [] k = "body" -> [schema |-> O([type |-> S("object"), properties |-> O([a |-> O(int)]), required |-> Arr(<<S("a")>>)])]
               [] k = "file" -> [type |-> S("file")]
               [] OTHER -> [type |-> S("array"), items |-> O([type |-> S("file")])]))
F(n) == O([data |-> S("content of " \o n), filename |-> S(n)])
Good(k, n) == CASE k = "path" -> S("a/b " \o n) [] k \in {"qreq", "qdef"} -> I(3) [] k \in {"qmulti", "qcsv", "hcsv", "fmulti"} -> Arr(<<I(1), I(0), I(1)>>)
                [] k = "hdr" -> S("h") [] k = "form" -> <<"b", FALSE>> [] k = "body" -> O([a |-> I(0), b |-> S("z")]) [] k = "file" -> F(n) [] OTHER -> Arr(<<F(n), F(n \o "2")>>)
Bad(k) == CASE k = "path" -> S("") [] k \in {"qreq", "qdef"} -> I(6) [] k \in {"qmulti", "qcsv", "hcsv", "fmulti"} -> Arr(<<I(1), I(6)>>)
            [] k = "hdr" -> S("long") [] k = "form" -> S("no") [] k = "body" -> O([b |-> S("z")]) [] k = "file" -> O(<<>>) [] OTHER -> Arr(<<O(<<>>)>>)
Name(i) == <<"p1", "p2", "p3">>[i]
RECURSIVE Mk(_, _)
Mk(c, i) == IF i > Len(c) THEN <<>> ELSE (IF c[i][1] = "none" THEN <<>> ELSE <<Decl(c[i][1], Name(i))>>) \o Mk(c, i + 1)
ArgsOf(c, unk) == [n \in {Name(i) : i \in {j \in 1..Len(c) : c[j][2] # "absent"}} \cup (IF unk THEN {"other"} ELSE {}) |->
                     IF n = "other" THEN I(1) ELSE LET i == CHOOSE j \in 1..Len(c) : Name(j) = n IN IF c[i][2] = "good" THEN Good(c[i][1], n) ELSE Bad(c[i][1])]
Kds(c) == {c[i][1] : i \in 1..Len(c)}
Choices(i) == (Kinds \X {"absent", "good", "bad"}) \ ({"none"} \X {"good", "bad"})
Small == {<<"none", "absent">>, <<"qdef", "absent">>, <<"hdr", "good">>, <<"form", "good">>, <<"fmulti", "good">>, <<"path", "good">>, <<"qreq", "absent">>}

VARIABLES c, unk, ps, args, i, got, used, phase
vars == <<c, unk, ps, args, i, got, used, phase>>
Empty == [path |-> <<>>, header |-> <<>>, query |-> <<>>, form |-> <<>>, file |-> <<>>, body |-> <<>>]
Init == /\ \E a \in Choices(1), b \in Choices(2), z \in (IF Slots = 3 THEN Choices(3) ELSE Small) : c = <<a, b, z>>
        /\ unk \in BOOLEAN
        /\ ~("body" \in Kds(c) /\ Kds(c) \cap {"form", "fmulti", "file", "files"} # {})
        /\ Cardinality({k \in 1..3 : c[k][1] = "body"}) < 2
        /\ unk => c[3] = <<"none", "absent">>
        /\ ps = Mk(c, 1) /\ args = ArgsOf(c, unk) /\ i = 1 /\ got = Empty /\ used = {} /\ phase = "run"
Put(f, n, x) == f @@ (n :> x)
Take ==
  /\ phase = "run" /\ i <= Len(ps)
  /\ LET p == ps[i]
         n == PName(p)
         given == n \in DOMAIN args
     IN IF ~given /\ ~HasField(p, "default") THEN
           (IF IsTrue(p, "required") THEN phase' = "badcall" ELSE phase' = phase) /\ UNCHANGED <<got, used>>
        ELSE LET r == Conv(<<>>, DeclOf(p), IF given THEN args[n] ELSE Field(p, "default"), TRUE)
                 w == Where(p)
             IN IF r = ERR THEN phase' = "err" /\ UNCHANGED <<got, used>>
                ELSE /\ phase' = phase /\ used' = used \cup {n}
                     /\ got' = CASE IsFileP(p) -> [got EXCEPT !.file = Put(@, n, FilesOf(r[2]))]
                                 [] w = "path" -> [got EXCEPT !.path = Put(@, n, StrOf(r[2]))]
                                 [] w = "header" -> [got EXCEPT !.header = Put(@, n, StrOf(r[2]))]
                                 [] w = "query" -> [got EXCEPT !.query = Put(@, n, EntriesOf(r[2]))]
                                 [] w = "formData" -> [got EXCEPT !.form = Put(@, n, EntriesOf(r[2]))]
                                 [] OTHER -> [got EXCEPT !.body = <<r[2]>>]
  /\ i' = i + 1 /\ UNCHANGED <<c, unk, ps, args>>
Finish == /\ phase = "run" /\ i > Len(ps)
          /\ phase' = IF DOMAIN args \ used # {} THEN "badcall" ELSE "placed"
          /\ UNCHANGED <<c, unk, ps, args, i, got, used>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars
W == Place(<<>>, ps, args)
AsPlaced == /\ phase = "placed" => W = OK(got)
            /\ phase = "badcall" => W \in {BADCALL, ERR}
            /\ phase = "err" => W = ERR
(* each argument is in exactly one container *)
Once == phase = "placed" => Cardinality(DOMAIN got.path) + Cardinality(DOMAIN got.header) + Cardinality(DOMAIN got.query) + Cardinality(DOMAIN got.form) + Cardinality(DOMAIN got.file) + Len(got.body) = Cardinality(used)
Emit == i = 1 /\ phase = "run" => PrintT(<<"@T@", ToJson([ps |-> ps, args |-> args])>>)
=========================================================================
