----------------------------- MODULE MC_C21 -----------------------------
(* A registry kept as a list, searched for the latest registration, agrees   *)
(* with the mapping, over every short history and spelling; two registries   *)
(* never influence each other.                                               *)
EXTENDS Codec, Json
CONSTANT Steps
Mimes == {"application/json", "Application/JSON", " text/xml", "TEXT/xml; charset=utf-8", "application/json;v=1"}
Ids == {"c1", "c2"}
Regs == {"r1", "r2"}
VARIABLES log, reg, hist
vars == <<log, reg, hist>>
Start == << <<"text/plain", "plain">>, <<"application/json", "json">>, <<"text/json", "json">> >>
Init == log = [r \in Regs |-> Start] /\ reg = [r \in Regs |-> Builtin] /\ hist = <<>>
Reg(r, m, i) == /\ log' = [log EXCEPT ![r] = Append(@, <<MediaType(m), i>>)]
                /\ reg' = [reg EXCEPT ![r] = Register(@, m, i)]
                /\ hist' = Append(hist, <<"reg", r, m, i>>)
Unreg(r, m) == /\ CodecFor(reg[r], m) # "none"
               /\ log' = [log EXCEPT ![r] = Append(@, <<MediaType(m), "none">>)]
               /\ reg' = [reg EXCEPT ![r] = Unregister(@, m)]
               /\ hist' = Append(hist, <<"unreg", r, m, "">>)
Next == Len(hist) < Steps /\ \E r \in Regs, m \in Mimes : (\E i \in Ids : Reg(r, m, i)) \/ Unreg(r, m)
Spec == Init /\ [][Next]_vars
Latest(r, m) == LET I == {i \in 1..Len(log[r]) : log[r][i][1] = MediaType(m)} IN IF I = {} THEN "none" ELSE log[r][MaxOf(I)][2]
Right == \A r \in Regs, m \in Mimes \cup {"text/plain", "image/png"} : CodecFor(reg[r], m) = Latest(r, m)
Emit == hist = <<>> \/ Len(hist) < Steps \/ PrintT(<<"@T@", ToJson(hist)>>)
=========================================================================
