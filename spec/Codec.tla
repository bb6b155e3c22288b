------------------------------ MODULE Codec ------------------------------
(* The registry of codecs by media type, and the JSON form of primitives.    *)
EXTENDS Request

(* type/subtype, whatever follows and however it is spelled *)
MediaType(m) == Lower(Strip(Split(m, ";")[1]))
Builtin == [x \in {"text/plain"} |-> "plain"] @@ [x \in {"application/json", "text/json"} |-> "json"]
Register(reg, m, id) == (MediaType(m) :> id) @@ reg
Unregister(reg, m) == [x \in DOMAIN reg \ {MediaType(m)} |-> reg[x]]
CodecFor(reg, m) == IF MediaType(m) \in DOMAIN reg THEN reg[MediaType(m)] ELSE "none"

(* JSON form of an observed primitive *)
RECURSIVE JsonForm(_)
JsonForm(p) ==
  CASE p[1] = "A" -> <<"a", TLCEval([i \in 1..Len(p[2]) |-> JsonForm(p[2][i])])>>
    [] p[1] = "a" -> <<"a", TLCEval([i \in 1..Len(p[2]) |-> JsonForm(p[2][i])])>>
    [] p[1] \in {"M", "o"} -> <<"o", TLCEval([k \in DOMAIN p[2] |-> JsonForm(p[2][k])])>>
    [] p[1] = "B" -> <<"s", p[3]>>
    [] p[1] \in {"U", "D", "T"} -> <<"s", p[2]>>
    [] OTHER -> p
=========================================================================
