#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as Python for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop('C01', 'A JSON reference always resolves to exactly the object it designates',
 'Resolving a JSON reference (absolute, relative to the document it appears in, or a bare pointer; with ~0/~1 escapes; into the root document, a whole external document or a fragment of one) yields the object at that pointer in the document at that URL, and a reference that designates nothing raises an error instead of yielding some other object. The answer depends only on the documents, never on which references were resolved before or in which order. References inside an external document are relative to that document.',
 ['inputs', 'histories'], 'every set of documents, every reference, every sequence of earlier App.resolve/App.s calls and pre-resolved $refs',
 'tests resolve a dozen fixed references, each on a fresh App; prefix-related names, mixed orders of fragment/whole-document loads and nested relative directories are never combined',
 ['pyswagger/core.py', 'pyswagger/resolve.py', 'pyswagger/utils.py', 'pyswagger/spec/base.py', 'pyswagger/scanner/v2_0/norm_ref.py', 'pyswagger/scanner/v2_0/resolve.py'],
 [('App.resolve', 'core.py'), ('App.prepare_obj', 'core.py'), ('Resolver.resolve', 'resolve.py'), ('normalize_jr', 'utils.py'), ('BaseObj.resolve', 'spec/base.py')],
 ['App.resolve return value / exception', 'App.s', 'Schema.ref_obj'],
 [('__objs', 'objects already prepared, by URL and pointer', 'App'), ('__cache', 'raw documents by URL', 'Resolver')])

prop('C02', 'The same API description gives the same App whatever its source',
 'An API description yields the same App (same dumped document, same operations and responses) whether it is read from a JSON file, a YAML file (integer status codes included), a directory, a dict getter, or through a load hook, and every document is fetched through the hook/getter at most once per App however many references point to it. What is fetched is the URL given, or what the hook maps it to; a description of an unsupported version, an empty one or one that cannot be fetched raises an error.',
 ['inputs', 'configurations', 'histories'], 'every description, every supported source form, every number and order of references into a document',
 'each loader is tested on one fixture and never compared with the others; nothing counts fetches',
 ['pyswagger/core.py', 'pyswagger/getter.py', 'pyswagger/resolve.py', 'pyswagger/utils.py', 'pyswagger/scanner/v2_0/yaml.py'],
 [('Getter.__next__', 'getter.py'), ('LocalGetter', 'getter.py'), ('DictGetter', 'getter.py'), ('Resolver.resolve', 'resolve.py'), ('App.load', 'core.py'), ('YamlFixer', 'scanner/v2_0/yaml.py')],
 ['App.dump', 'App.op', 'App.raw', 'calls of url_load_hook and of the getter'],
 [('__cache', 'raw documents by URL', 'Resolver')])

prop('C03', 'Reference cycles never hang and are reported exactly when they exist',
 'Preparing any description terminates. Strict preparation raises the cycle error if and only if some chain of Schema $refs (through properties, items, additionalProperties and allOf) reaches itself again; a cyclic chain of path item, parameter or response $refs never hangs it. Non-strict preparation of a cyclic description succeeds, and finite values of recursive models still convert to primitives.',
 ['inputs'], 'every directed graph of $refs over every kind of edge, local or across documents',
 'tests hold a handful of fixed cycles; the space of graphs (overlapping cycles, self loops, cycles only via allOf or other documents, diamonds without a cycle) is not explored',
 ['pyswagger/utils.py', 'pyswagger/scanner/cycle_detector.py', 'pyswagger/scanner/v2_0/aggt.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/core.py', 'pyswagger/primitives/__init__.py'],
 [('walk', 'utils.py'), ('CycleDetector', 'scanner/cycle_detector.py'), ('CycleGuard', 'utils.py'), ('App.prepare', 'core.py')],
 ['App.prepare result under a time limit', 'produced values'])

prop('C04', 'Every operation carries the attributes its position in the document gives it',
 'After preparation each operation has the consumes, produces, schemes and security of its own declaration, or those of the API when it declares none (an explicitly empty security list means none); its own parameters plus those of its path item that it does not override; and the method, path, base path and URL of its place. A path item, parameter or response given by $ref behaves as the object it refers to (through chains), keeping what the referring object itself defines. The result does not depend on the order of anything in the document.',
 ['inputs', 'configurations'], 'every description, every presence/absence combination of the inherited attributes, every chain of path item/parameter/response references',
 'one fixture (patch/merge) checks a few combinations; presence/absence combinations are exponential and order independence is untested',
 ['pyswagger/scanner/v2_0/patch_obj.py', 'pyswagger/scanner/v2_0/merge.py', 'pyswagger/spec/base.py', 'pyswagger/core.py'],
 [('PatchObject', 'scanner/v2_0/patch_obj.py'), ('Merge', 'scanner/v2_0/merge.py'), ('BaseObj.merge', 'spec/base.py'), ('App.prepare', 'core.py')],
 ['attributes of Operation', 'final form of Parameter/Response', 'Request.url/path/base_path/schemes'])

prop('C05', 'A schema composed with allOf aggregates exactly its members',
 'The aggregated form of a schema has every property, every required name and every other attribute contributed by the schema itself or by any schema reachable through its allOf/$ref closure, with the schema itself overriding its members on conflict, and nothing else. The aggregation does not change the declared schemas, and does not depend on the order in which schemas are visited.',
 ['inputs', 'histories'], 'every acyclic inheritance graph (nested, shared and diamond-shaped allOf, with $ref and inline members), every visiting order',
 'tests aggregate one fixed hierarchy',
 ['pyswagger/scanner/v2_0/aggt.py', 'pyswagger/spec/base.py', 'pyswagger/utils.py'],
 [('_compose', 'scanner/v2_0/aggt.py'), ('BaseObj.merge', 'spec/base.py'), ('final/deref', 'utils.py')],
 ['Schema.final', 'utils.final(utils.deref(schema))'])

prop('C06', 'A scalar is accepted iff it satisfies its declaration, and keeps its value',
 'Converting a value for an integer, number, string (plain, enum, email, password, byte, uuid), boolean or file declaration yields the value it denotes in the declared type, and raises whenever the value breaks a declared minimum/maximum (inclusive or exclusive), multipleOf, or (for text) minLength/maxLength or enum, or cannot be read as that type. An absent value takes the declared default; no other value is ever replaced, and zero, empty and false values or bounds are treated like any other.',
 ['inputs'], 'every declaration and every value, including the boundary and falsy ones',
 'tests sample a few values per type; boundaries combined with falsy values, exclusive bounds and allOf members are not sampled',
 ['pyswagger/primitives/__init__.py', 'pyswagger/primitives/_int.py', 'pyswagger/primitives/_float.py', 'pyswagger/primitives/_str.py', 'pyswagger/primitives/_bool.py', 'pyswagger/primitives/_byte.py', 'pyswagger/primitives/_uuid.py', 'pyswagger/primitives/_file.py', 'pyswagger/primitives/comm.py'],
 [('Primitive.produce', 'primitives/__init__.py'), ('min_max', 'primitives/comm.py'), ('validate_*', 'primitives/_*.py')],
 ['Primitive.produce / Schema._prim_ result', 'str() and JSON form of the result'])

prop('C07', 'Arrays keep every element in order under every collection format',
 'An array built from a list (or from a string split at the declared csv, ssv, tsv or pipes separator) holds the conversion of each element in order, without repeats when uniqueItems is set, and is rejected when its length breaks minItems/maxItems or an element breaks the item declaration. Its string form joins the elements with the declared separator so that splitting it again gives back the elements, its URL form has one entry per element for multi and a single joined entry otherwise, and nested arrays use their own format.',
 ['inputs'], 'every list or string, every collection format, every nesting and every item type',
 'tests use one short list per format; empty strings, repeated elements, nesting and limits are not combined',
 ['pyswagger/primitives/_array.py', 'pyswagger/primitives/__init__.py'],
 [('Array.apply_with', 'primitives/_array.py'), ('Array.__str__/to_url', 'primitives/_array.py')],
 ['Array contents', 'str(Array)', 'Array.to_url'])

prop('C08', 'Models hold exactly the converted properties their schema allows',
 'Building a model converts each given property by its own schema (its own or one inherited through allOf), adds declared defaults for absent ones, keeps undeclared properties as is when additional properties are allowed and converts them by the additionalProperties schema when one is given, and drops none that is declared (a declared discriminator is filled in by the library). A missing required property, or a read-only property set while writing, raises; models are equal exactly when their non-null properties are equal.',
 ['inputs'], 'every object schema (nested, inherited, recursive) and every dict value',
 'tests build a few fixed models',
 ['pyswagger/primitives/_model.py', 'pyswagger/primitives/__init__.py', 'pyswagger/utils.py'],
 [('Model.apply_with/cleanup', 'primitives/_model.py'), ('Primitive.produce', 'primitives/__init__.py')],
 ['Model contents after _prim_', 'exceptions'])

prop('C09', 'Calling an operation places every argument where its parameter says',
 'Calling an operation with arguments puts each one, converted, exactly once in the location of its parameter (path, query, header, form, body or file; repeated query/form entries for multi arrays, in order), fills in declared defaults, and adds nothing else. A missing required parameter without default, or an argument naming no parameter, raises ValueError.',
 ['inputs'], 'every set of declared parameters (own, inherited, by $ref) and every set of arguments',
 'tests call fixed operations with fixed arguments',
 ['pyswagger/spec/v2_0/objects.py', 'pyswagger/primitives/__init__.py'],
 [('Operation.__call__', 'spec/v2_0/objects.py')],
 ['Request.query/files/data/header after prepare', 'exceptions'])

prop('C10', 'The request put on the wire is the one the operation and arguments describe',
 'The method, scheme, host, path, query, headers and body sent are those the operation, its arguments and the options describe: path arguments percent-encoded into single segments, query and form entries surviving decoding, the body encoded by the chosen or first declared content type (error if not declared), Accept from the chosen or first produced type, the scheme supported by both sides, with netloc/scheme options patched. The bundled clients send the same request for the same call.',
 ['inputs', 'configurations'], 'every operation, every argument text (reserved, non-ASCII and empty included), every client and option',
 'tests send a few fixed calls with plain ASCII arguments, and never compare clients',
 ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/contrib/client/requests.py', 'pyswagger/contrib/client/flask.py', 'pyswagger/contrib/client/tornado.py', 'pyswagger/primitives/codec.py'],
 [('Request.prepare', 'io.py'), ('Request._patch', 'io.py'), ('BaseClient.prepare_schemes', 'core.py'), ('Client.request', 'contrib/client/*.py')],
 ['what requests.Session.send / the WSGI app / tornado fetch receives'])

prop('C11', 'A response is read by the declaration for its status and nothing else',
 'Applying a response records its status, its raw body and every header value in order under its name (repeated headers accumulate, converted by the declared header type), and reads the body with the codec of the received content type and the schema declared for that status, or for default when that status is not declared. Without a matching schema, or with the raw-body option, the data stays empty and the raw body is kept.',
 ['inputs'], 'every set of declared responses, every status, header list and body, every way of splitting the calls',
 'tests apply a few fixed responses',
 ['pyswagger/io.py', 'pyswagger/primitives/codec.py'],
 [('Response.apply_with', 'io.py'), ('Response._convert_header', 'io.py')],
 ['Response.status/data/raw/header'])

prop('C12', 'Reusing an App, client, request or response never leaks earlier calls',
 'Whatever calls came before on the same App, client and security object, and however often a request/response pair is sent again, a request puts on the wire and a response holds exactly what a fresh one would. Neither calls nor clients modify the arguments, options, headers or default values they were given, nor the API description.',
 ['histories'], 'every sequence of calls, prepares, resets, sends and failures on shared objects',
 'tests exercise each call once on fresh objects',
 ['pyswagger/io.py', 'pyswagger/core.py', 'pyswagger/contrib/client/requests.py', 'pyswagger/contrib/client/flask.py', 'pyswagger/contrib/client/tornado.py', 'pyswagger/spec/v2_0/objects.py'],
 [('Request.reset/Response.reset', 'io.py'), ('Client.request', 'contrib/client/*.py'), ('BaseClient.compose_headers', 'core.py')],
 ['wire requests', 'Response fields', 'deep copies of arguments before/after', 'App.dump'],
 [('__url/__path/__header', 'request state mutated by prepare', 'io.Request')])

prop('C13', 'Credentials go exactly to the operations that require them',
 'A request carries the credential of every security scheme that its operation requires and that has been provided (basic: base64 user:password in Authorization; apiKey: in the declared header or query name; oauth2: in the access_token header), in its latest provided value and once, and no other credential. Providing one for an undeclared scheme or of an unsupported type raises ValueError.',
 ['inputs', 'histories'], 'every set of security definitions and requirements (API-wide and per operation), every history of providing credentials and sending',
 'tests provide each kind once; requirement combinations, updates and repeated sends are not explored',
 ['pyswagger/core.py', 'pyswagger/utils.py', 'pyswagger/scanner/v2_0/patch_obj.py'],
 [('Security.update_with/__call__', 'core.py'), ('nv_tuple_list_replace', 'utils.py')],
 ['headers and query on the wire'],
 [('__info', 'credential per scheme name', 'Security')])

prop('C14', 'Operation lookup finds the one operation that matches, or says why not',
 'App.op finds an operation by its full key, by its tag and operation id, or by its operation id alone when a single operation has that id, with the configured separator; it raises ValueError when several operations match and KeyError when none does, and never returns an operation that does not match the requested names. Two operations with the same tag and id are rejected when preparing.',
 ['inputs'], 'every set of tags and operation ids (one a suffix of another, sharing tags), every lookup key, every separator',
 'tests look up a few names in fixed sets',
 ['pyswagger/utils.py', 'pyswagger/scanner/type_reducer.py', 'pyswagger/core.py'],
 [('ScopeDict.__getitem__', 'utils.py'), ('TypeReduce', 'scanner/type_reducer.py')],
 ['App.op[...] result or exception'])

prop('C15', 'Dumping gives back the description that was loaded',
 'Dumping an App gives a description that means the same as the loaded one: every declared field with a value other than its default is present with that value, nothing undeclared is invented, and loading the dump again gives the same dump and an App that compares equal. Comparison finds two loaded descriptions equal iff all their fields are, and names a place where they differ.',
 ['inputs'], 'every description, loaded raw',
 'tests dump one or two fixtures and compare two fixtures',
 ['pyswagger/spec/base.py', 'pyswagger/spec/v2_0/parser.py', 'pyswagger/spec/v2_0/objects.py'],
 [('BaseObj.dump', 'spec/base.py'), ('BaseObj.compare', 'spec/base.py'), ('Context.parse', 'spec/base.py')],
 ['App.raw.dump()', 'App.dump()', 'BaseObj.compare'])

prop('C16', 'A Swagger 1.2 description becomes the equivalent 2.0 one',
 'Loading a Swagger 1.2 description gives the 2.0 description with the same meaning: each operation of each resource under the path, method, tag, id, consumes/produces and authorizations it had (its own or its resource\'s), each parameter and model property with its type, format, items, default, enum and bounds as numbers, models scoped by resource, subTypes as allOf, authorizations as security definitions, and host and path split from the base path. None is lost, merged or duplicated, and calls on the result put the same requests on the wire.',
 ['inputs'], 'every 1.2 description',
 'tests convert one fixture (wordnik)',
 ['pyswagger/scanner/v1_2/upgrade.py', 'pyswagger/spec/v1_2/objects.py', 'pyswagger/spec/v1_2/parser.py', 'pyswagger/core.py'],
 [('Upgrade', 'scanner/v1_2/upgrade.py'), ('ResourceListContext.parse', 'spec/v1_2/parser.py')],
 ['App.root of a 1.2 description', 'App.op', 'Request after prepare'])

prop('C17', 'Validation reports exactly the rule violations of a description',
 'Validating a description returns one error for each documented rule broken at each object, located at that object, and none otherwise; strict preparation raises a validation error iff there is at least one, non-strict preparation never raises a validation error, and neither fails otherwise for errors that leave the description convertible.',
 ['inputs'], 'every description (1.2 and 2.0) and every combination of broken rules',
 'tests break each rule once in isolation',
 ['pyswagger/scanner/v1_2/validate.py', 'pyswagger/scanner/v2_0/validate.py', 'pyswagger/core.py'],
 [('Validate', 'scanner/v*/validate.py'), ('App.validate', 'core.py')],
 ['App.validate result', 'App.prepare exceptions'])

prop('C18', 'Whatever the renderer generates satisfies the schema it was given',
 'Every value the renderer generates for a schema or parameter, whatever the random choices and options, satisfies that declaration (type, bounds, lengths, item counts, enum, required and declared properties) and is accepted when converted by it. Rendering all parameters of an operation gives every required one and none excluded, uses templates where given, and calling the operation with the result succeeds.',
 ['inputs', 'configurations', 'schedules'], 'every schema the renderer supports, every option set, every random outcome',
 'tests draw a few random values for fixed schemas; boundary values of the random draw are rarely hit',
 ['pyswagger/primitives/render.py'],
 [('Renderer._generate', 'primitives/render.py'), ('Renderer.render_all', 'primitives/render.py')],
 ['Renderer.render/render_all results', 'Operation.__call__'])

prop('C19', 'Headers are combined without loss and looked up ignoring case',
 'The headers a client sends contain every header of the request and every custom header given (as dict or list), all values of a repeated name being kept in a list, comma-joined in order when joining is asked for, and, in the plain dict form, the request\'s own value winning. Header names of requests and responses are looked up ignoring case, and setting one replaces the value under any spelling while keeping the last spelling.',
 ['inputs', 'histories'], 'every list/dict of headers, every option, every sequence of header dict operations',
 'tests combine one or two headers',
 ['pyswagger/core.py', 'pyswagger/utils.py'],
 [('BaseClient.compose_headers', 'core.py'), ('CaseInsensitiveDict', 'utils.py')],
 ['compose_headers result', 'Request.header', 'Response.header'])

prop('C20', 'Every object is reachable under its JSON pointer, with its true parent',
 'Traversing a loaded description visits every object exactly once under the JSON pointer (with escaping) that resolves back to it, and gives each object the parent that contains it; visitors registered for a type see exactly the objects of that type. Composing pointers and splitting them are inverse for every token, and splitting, joining and normalizing URLs and references follows the RFC rules for relative paths.',
 ['inputs'], 'every description, every token text, every pair of base and relative reference',
 'tests check fixed strings and fixed trees',
 ['pyswagger/utils.py', 'pyswagger/scan.py', 'pyswagger/spec/base.py', 'pyswagger/scanner/v2_0/assign_parent.py'],
 [('jp_compose/jp_split/jr_split/normalize_jr/url_join', 'utils.py'), ('Scanner.scan', 'scan.py'), ('_children_/_assign_parent', 'spec/base.py')],
 ['results of the functions', 'paths passed to visitors', '_parent_'])

prop('C21', 'Bodies go through the codec of their media type, unchanged in meaning',
 'A body is encoded and decoded by the codec registered for its media type, ignoring case, surrounding blanks and parameters, with the latest registration in force and an error when there is none. JSON encoding then decoding gives back every value, with dates, times, bytes and UUIDs in their string form; text that is not JSON is rejected.',
 ['inputs', 'histories'], 'every media type spelling, every history of register/unregister, every value',
 'tests use a few fixed types',
 ['pyswagger/primitives/codec.py', 'pyswagger/primitives/comm.py'],
 [('MimeCodec', 'primitives/codec.py'), ('PrimJSONEncoder', 'primitives/comm.py')],
 ['MimeCodec.marshal/unmarshal'],
 [('_codecs', 'codec per media type', 'MimeCodec')])

prop('C22', 'Dates and times keep the instant they denote',
 'Every ISO-8601 date or date-time text is read as the exact date, time, fraction and offset it denotes (Z, positive, negative and half-hour offsets; fractions to the microsecond), text that is not one is rejected, and writing a value and reading it back gives the same value. A date value is written as a date only, a timestamp denotes its UTC instant.',
 ['inputs'], 'every date/time text and value',
 'tests read a few fixed texts',
 ['pyswagger/utils.py', 'pyswagger/primitives/_time.py'],
 [('from_iso8601', 'utils.py'), ('Date/Datetime', 'primitives/_time.py')],
 ['Date/Datetime .v and .to_json()'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
