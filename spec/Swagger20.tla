--------------------------- MODULE Swagger20 ---------------------------
(* The shape of a Swagger 2.0 document: which fields of which object hold   *)
(* objects of which class.                                                  *)
EXTENDS JsonRef

One(c)  == <<"one", c>>
Map(c)  == <<"map", c>>
List(c) == <<"list", c>>
Methods == <<"get", "put", "post", "delete", "options", "head", "patch">>
ChildFields(cls) ==
  CASE cls = "Swagger" -> [info |-> One("Info"), paths |-> Map("PathItem"), definitions |-> Map("Schema"), parameters |-> Map("Parameter"),
                           responses |-> Map("Response"), securityDefinitions |-> Map("SecurityScheme"), tags |-> List("Tag"),
                           externalDocs |-> One("ExternalDocumentation")]
    [] cls = "Info" -> [contact |-> One("Contact"), license |-> One("License")]
    [] cls = "PathItem" -> [get |-> One("Operation"), put |-> One("Operation"), post |-> One("Operation"), delete |-> One("Operation"),
                            options |-> One("Operation"), head |-> One("Operation"), patch |-> One("Operation"), parameters |-> List("Parameter")]
    [] cls = "Operation" -> [parameters |-> List("Parameter"), responses |-> Map("Response")]
    [] cls = "Parameter" -> [schema |-> One("Schema"), items |-> One("Items")]
    [] cls = "Response" -> [schema |-> One("Schema"), headers |-> Map("Header")]
    [] cls = "Header" -> [items |-> One("Items")]
    [] cls = "Items" -> [items |-> One("Items")]
    [] cls = "Schema" -> [items |-> One("Schema"), properties |-> Map("Schema"), additionalProperties |-> One("Schema"), allOf |-> List("Schema"),
                          xml |-> One("XMLObject"), externalDocs |-> One("ExternalDocumentation")]
    [] cls = "Tag" -> [externalDocs |-> One("ExternalDocumentation")]
    [] OTHER -> <<>>
(* the further classes an object of a class is *)
IsA(cls, super) == cls = super \/ super = "BaseObj_v2_0" \/ (super = "BaseSchema" /\ cls \in {"Schema", "Items", "Parameter", "Header"})

(* objects directly below an object: set of [ptr, cls, node, up] *)
Below(o) ==
  LET cf == ChildFields(o.cls)
      fs == {f \in DOMAIN cf : HasField(o.node, f)}
      At(toks, c, n) == [ptr |-> PtrCompose(toks, o.ptr), cls |-> c, node |-> n, up |-> o.ptr]
      Of(f) == LET v == Field(o.node, f)
                   k == cf[f][1]
                   c == cf[f][2]
               IN CASE k = "one" -> IF v[1] = "o" THEN {At(<<f>>, c, v)} ELSE {}
                    [] k = "map" -> IF v[1] = "o" THEN {At(<<f, n>>, c, v[2][n]) : n \in DOMAIN v[2]} ELSE {}
                    [] OTHER     -> IF v[1] = "a" THEN {At(<<f, ToString(i - 1)>>, c, v[2][i]) : i \in 1..Len(v[2])} ELSE {}
  IN UNION {Of(f) : f \in fs}
RECURSIVE Under(_, _)
Under(os, leaves) == IF os = {} THEN {}
                     ELSE os \cup Under(UNION {Below(o) : o \in {x \in os : x.cls \notin leaves}}, leaves)
RootObj(doc) == [ptr |-> "#", cls |-> "Swagger", node |-> doc, up |-> "none"]
Objects(doc) == Under({RootObj(doc)}, {})
(* the fields an object of a class may declare, and those whose absence means a value *)
TypeFields == {"default", "enum", "exclusiveMaximum", "exclusiveMinimum", "format", "items", "maxItems", "maxLength", "maximum", "minItems", "minLength", "minimum", "multipleOf", "pattern", "type", "uniqueItems"}
FieldsOf(cls) ==
  CASE cls = "Swagger" -> {"basePath", "consumes", "definitions", "externalDocs", "host", "info", "parameters", "paths", "produces", "responses", "schemes", "security", "securityDefinitions", "swagger", "tags"}
    [] cls = "Info" -> {"contact", "description", "license", "termsOfService", "title", "version"}
    [] cls = "Contact" -> {"email", "name", "url"}
    [] cls = "License" -> {"name", "url"}
    [] cls = "PathItem" -> {"$ref", "delete", "get", "head", "options", "parameters", "patch", "post", "put"}
    [] cls = "Operation" -> {"consumes", "deprecated", "description", "externalDocs", "operationId", "parameters", "produces", "responses", "schemes", "security", "summary", "tags"}
    [] cls = "Parameter" -> TypeFields \cup {"$ref", "allowEmptyValue", "collectionFormat", "description", "in", "name", "required", "schema"}
    [] cls = "Response" -> {"$ref", "description", "examples", "headers", "schema"}
    [] cls = "Header" -> TypeFields \cup {"collectionFormat", "description"}
    [] cls = "Items" -> TypeFields \cup {"collectionFormat"}
    [] cls = "Schema" -> TypeFields \cup {"$ref", "additionalProperties", "allOf", "description", "discriminator", "example", "externalDocs", "maxProperties", "minProperties", "properties", "readOnly", "required", "title", "xml"}
    [] cls = "XMLObject" -> {"attribute", "name", "namespace", "prefix", "wrapped"}
    [] cls = "ExternalDocumentation" -> {"description", "url"}
    [] cls = "SecurityScheme" -> {"authorizationUrl", "description", "flow", "in", "name", "scopes", "tokenUrl", "type"}
    [] cls = "Tag" -> {"description", "externalDocs", "name"}
    [] OTHER -> {}
NoList == <<"a", <<>>>>
NoMap  == <<"o", <<>>>>
DefaultsOf(cls) ==
  CASE cls \in {"Items", "Header"} -> [collectionFormat |-> <<"s", "csv">>]
    [] cls = "Parameter" -> [collectionFormat |-> <<"s", "csv">>, allowEmptyValue |-> <<"b", FALSE>>]
    [] cls = "Schema" -> [required |-> NoList, allOf |-> NoList, properties |-> NoMap, additionalProperties |-> <<"b", TRUE>>]
    [] cls = "Swagger" -> [schemes |-> NoList, consumes |-> NoList, produces |-> NoList]
    [] cls = "Operation" -> [schemes |-> NoList, consumes |-> NoList, produces |-> NoList, deprecated |-> <<"b", FALSE>>]
    [] cls = "Response" -> [headers |-> NoMap]
    [] cls = "PathItem" -> [parameters |-> NoList]
    [] OTHER -> <<>>
AtDefault(cls, f, v) == LET d == DefaultsOf(cls) IN f \in DOMAIN d /\ d[f][1] = v[1] /\ d[f] = v
(* what an object declares: known fields that say something, in a document at u *)
RECURSIVE Declares(_, _, _)
Declares(cls, u, n) ==
  IF n[1] # "o" THEN n ELSE
  LET cf == ChildFields(cls)
      keep == {f \in DOMAIN n[2] \cap FieldsOf(cls) : n[2][f][1] # "n" /\ ~AtDefault(cls, f, n[2][f])
                                                         /\ ~(f \in DOMAIN cf /\ n[2][f] \in {NoMap, NoList})}     \* no objects, declared or not, is the same
      Of(f) == LET v == n[2][f] IN
        IF f \notin DOMAIN cf THEN (IF f = "$ref" /\ v[1] = "s" THEN <<"s", NormRef(v[2], u)>> ELSE v)
        ELSE LET k == cf[f][1]
                 c == cf[f][2]
             IN CASE k = "one" /\ v[1] = "o" -> Declares(c, u, v)
                  [] k = "map" /\ v[1] = "o" -> <<"o", [x \in DOMAIN v[2] |-> Declares(c, u, v[2][x])]>>
                  [] k = "list" /\ v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> Declares(c, u, v[2][i])]>>
                  [] OTHER -> v
  IN <<"o", TLCEval([f \in keep |-> Of(f)])>>
(* fields found where the class of the object knows none *)
Unknown(doc) == UNION {{<<o.ptr, f>> : f \in (IF o.node[1] = "o" THEN DOMAIN o.node[2] \ FieldsOf(o.cls) ELSE {})} : o \in Objects(doc)}
=========================================================================
