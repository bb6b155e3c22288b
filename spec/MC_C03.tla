----------------------------- MODULE MC_C03 -----------------------------
(* Looking for a cycle by depth: a path of places, what is left to try from  *)
(* each, and the places that are done with.  In any order it ends, within a  *)
(* number of steps linear in the graph, and finds a cycle iff there is one.  *)
EXTENDS Cycles, Json
CONSTANT N
V == 1..N
VARIABLES g, path, todo, done, found, steps
vars == <<g, path, todo, done, found, steps>>
Init == /\ g \in [V -> SUBSET V]
        /\ path = <<>> /\ todo = [v \in V |-> {}] /\ done = {} /\ found = FALSE /\ steps = 0
OnPath(v) == \E i \in 1..Len(path) : path[i] = v
Top == path[Len(path)]
Begin == path = <<>> /\ (\E v \in V \ done : path' = <<v>> /\ todo' = [todo EXCEPT ![v] = g[v]]) /\ UNCHANGED <<g, done, found>> /\ steps' = steps + 1
Try(w) == /\ path # <<>> /\ w \in todo[Top]
          /\ IF OnPath(w) THEN found' = TRUE /\ path' = path /\ todo' = [todo EXCEPT ![Top] = @ \ {w}]
             ELSE IF w \in done THEN found' = found /\ path' = path /\ todo' = [todo EXCEPT ![Top] = @ \ {w}]
             ELSE found' = found /\ path' = Append(path, w) /\ todo' = [todo EXCEPT ![Top] = @ \ {w}, ![w] = g[w]]
          /\ UNCHANGED <<g, done>> /\ steps' = steps + 1
Back == /\ path # <<>> /\ todo[Top] = {}
        /\ done' = done \cup {Top} /\ path' = SubSeq(path, 1, Len(path) - 1)
        /\ UNCHANGED <<g, todo, found>> /\ steps' = steps + 1
Next == Begin \/ (\E w \in V : Try(w)) \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == path = <<>> /\ done = V
(* the same graph as a description: vertex i is definition di, edges through each construct in turn *)
Name(v) == "d" \o ToString(v)
Ref(v) == <<"o", "$ref" :> <<"s", "#/definitions/" \o Name(v)>>>>
Node(out, k) ==
  LET q == SetToSeq(out)
      F(i) == (i + k) % 4
      At(f) == {q[i] : i \in {j \in 1..Len(q) : F(j) = f}}
      one(S) == Ref(CHOOSE x \in S : TRUE)
  IN <<"o", [type |-> <<"s", "object">>]
            @@ (IF At(0) = {} THEN <<>> ELSE [properties |-> <<"o", [n \in {Name(v) : v \in At(0)} |-> Ref(CHOOSE v \in At(0) : Name(v) = n)]>>])
            @@ (IF At(1) = {} THEN <<>> ELSE [items |-> one(At(1))])
            @@ (IF At(2) = {} THEN <<>> ELSE [additionalProperties |-> <<"o", [items |-> one(At(2)), type |-> <<"s", "array">>]>>])
            @@ (IF At(3) = {} THEN <<>> ELSE [allOf |-> <<"a", <<<<"o", [type |-> <<"s", "object">>]>>, one(At(3))>>>>])>>
Doc == <<"o", [swagger |-> <<"s", "2.0">>, info |-> <<"o", [version |-> <<"s", "1">>, title |-> <<"s", "t">>]>>, host |-> <<"s", "h">>,
               paths |-> <<"o", <<>>>>, definitions |-> <<"o", [n \in {Name(v) : v \in V} |-> LET v == CHOOSE x \in V : Name(x) = n IN Node(g[v], v)]>>]>>
U == "http://h/swagger.json"
HasCycle == LET R[i \in 0..N] == IF i = 0 THEN {<<a, b>> \in V \X V : b \in g[a]} ELSE LET T == R[i - 1] IN T \cup {<<a, c>> \in V \X V : \E b \in V : <<a, b>> \in T /\ <<b, c>> \in T}
            IN \E v \in V : <<v, v>> \in R[N]
Right == Finished => found = HasCycle
Sound == found => HasCycle
Short == steps <= N * (N + 2)
Declared == steps = 0 => SchemaCycle(U :> Doc, U) = HasCycle
Ends == <>Finished
Emit == steps # 0 \/ PrintT(<<"@T@", ToJson(Doc)>>)
=========================================================================
