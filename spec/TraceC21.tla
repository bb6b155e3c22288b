---------------------------- MODULE TraceC21 ----------------------------
(* Observed registries, encodings and decodings.                            *)
EXTENDS Codec, TraceBase
Fresh(ses) == [r1 |-> Builtin, r2 |-> Builtin]
After(ses, x, e) == CASE e.ev = "reg" -> [x EXCEPT ![e.reg] = Register(@, e.mime, e.id)]
                      [] e.ev = "unreg" -> [x EXCEPT ![e.reg] = Unregister(@, e.mime)]
                      [] OTHER -> x
Verdict(ses, x, e) ==
  CASE e.ev = "reg" -> Clause("registering must succeed", e.r = "ok", "ok")
    [] e.ev = "unreg" -> Clause("unregistering what is registered must succeed", e.r = "ok" \/ CodecFor(x[e.reg], e.mime) = "none", "ok")
    [] e.ev = "find" -> LET w == CodecFor(x[e.reg], e.mime) IN Clause("codec found", e.r = w, w)
    [] e.ev \in {"encode", "decode"} ->
         LET w == CodecFor(x[e.reg], e.mime) IN
         IF w = "none" THEN Clause("without a codec it is an error", e.r = "exc", "an exception")
         ELSE Clause("codec used", e.r = w, w) \cup Clause("what the codec answers is what is used", e.same, "unchanged")
    [] e.ev = "json" ->
         IF e.r # "ok" THEN {"encoding and decoding must succeed: specified ok"}
         ELSE LET w == TLCEval(JsonForm(e.v)) IN
              Clause("JSON text of a value", e.text = w, w) \cup Clause("decoding gives back the value", e.back = w, w)
    [] e.ev = "notjson" -> Clause("what is not JSON is an error", e.r = "exc", "an exception")
    [] e.ev = "body" ->          \* a call whose body goes through a codec of the App
         LET w == CodecFor(x[e.reg], e.mime) IN
         IF w = "none" THEN Clause("without a codec nothing is sent", e.r = "exc" /\ e.sent = 0, "an exception, nothing sent")
         ELSE IF w = "plain" /\ (e.arg[1] # "s" \/ HasField(e.schema, "format")) THEN {}          \* only texts are plain
         ELSE IF e.r # "ok" THEN {"the request must be sent: specified ok"}
         ELSE IF w \in {"json", "plain"} THEN Clause("no other codec is called", e.calls = <<>>, "none")
         ELSE Clause("the codec of the media type is called, once", Len(e.calls) = 1 /\ e.calls[1].id = w, w)
              \cup (IF Len(e.calls) # 1 THEN {} ELSE
                    Clause("it gets the value", JsonForm(e.calls[1].v) = e.arg, e.arg)
                    \cup Clause("it gets the type and format declared", e.calls[1].type = TextField(e.schema, "type") /\ e.calls[1].format = TextField(e.schema, "format"), e.schema)
                    \cup Clause("it gets the name of the definition", e.name = "" \/ e.calls[1].name = e.name, e.name)
                    \cup Clause("its text is the body sent", e.wire = e.calls[1].out, e.calls[1].out))
    [] e.ev = "reply" ->         \* a response whose body goes through a codec of the App
         LET w == CodecFor(x[e.reg], e.mime) IN
         IF w = "none" THEN Clause("without a codec it is an error", e.r = "exc", "an exception")
         ELSE IF w \in {"json", "plain"} THEN Clause("no other codec is called", e.calls = <<>>, "none")
         ELSE IF e.r # "ok" THEN {"the response must be read: specified ok"}
         ELSE Clause("the codec of the media type is called, once", Len(e.calls) = 1 /\ e.calls[1].id = w, w)
              \cup (IF Len(e.calls) # 1 THEN {} ELSE
                    Clause("it gets the raw body", e.calls[1].v = e.raw, e.raw)
                    \cup Clause("it gets the type and format declared", e.calls[1].type = TextField(e.schema, "type") /\ e.calls[1].format = TextField(e.schema, "format"), e.schema)
                    \cup Clause("what it answers is the data", JsonForm(e.data) = e.calls[1].out, e.calls[1].out))
    [] OTHER -> {"unknown event"}
=========================================================================
