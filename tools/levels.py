COMMON = ' Sessions are recorded through the public API of the code in /repo and each event is judged by TLC; what is not in the explored inputs is not decided. Trusted: TLC, the JSON encoding of observations, the drivers in props/.'
NOTES['C01'] = 'Design model: every sequence (<=3) of 13 references over two documents, whichever kept object answers (exhaustive); all of those histories replayed, plus random document sets with absolute/relative/escaped/dangling references.' + COMMON
NOTES['C14'] = 'Design model: all sets of <=3 operations over a small alphabet of tags and ids (exhaustive), replayed with every lookup; plus random name sets and separators.' + COMMON

NOTES['C06'] = 'Design model: the staged conversion (create, second pass, members of allOf) equals the declarative one for every combination of bounds over a small domain (exhaustive); all replayed, plus random declarations and values.' + COMMON
NOTES['C07'] = 'Design model: splitting, de-duplicating, converting, checking and writing arrays over small element lists and all formats (exhaustive); all replayed, plus random nested arrays.' + COMMON
NOTES['C08'] = 'Design model: staged application of a schema and its allOf members equals the declarative model, over small schemas and values (exhaustive); replayed (a third per quick run, rotating with the seed), plus random nested, inherited and recursive schemas, and model equality.' + COMMON
NOTES['C22'] = 'Design model: a calendar advancing day by day over leap, century and epoch boundaries; writing and reading are inverse and day numbers exact on every day (exhaustive over 6x430 days); its texts replayed, plus random texts, near-texts, timestamps and datetime objects under several process time zones.' + COMMON
NOTES['C20'] = 'Design model: a traversal by work list in any order visits each object once under a pointer leading back to it, over small documents with awkward names (exhaustive); those documents and random ones are traversed by user-defined visitors (several per type, by super class, with leaves, from sub-objects), parents and the way back checked before and after preparing; pointer and URL arithmetic on random clean URLs.' + COMMON
NOTES['C09'] = 'Design model: parameters of a call taken one after another (up to 2, thorough 3, of 12 kinds; given well, badly or not at all; unknown arguments) collect exactly what the declarative placement says (exhaustive); every such call replayed, plus random operations with inherited, overridden and shared parameters. What was placed is read back from the prepared request the way a server reads it.' + COMMON
NOTES['C10'] = 'Design model: operations with and without consumes, produces, schemes and every kind of payload, and the options of a call (preferred scheme, media types, host overrides): the request put on the wire, refused exactly when the description forbids it (exhaustive over the small domain); every call replayed through the three clients with a transport that records what arrives, plus random descriptions and calls.' + COMMON
NOTES['C19'] = 'Design model: every history of setting and deleting names in several spellings keeps the mapping its history says; headers combined one after another agree with the declarative account of lists, dicts and joined headers (exhaustive); all replayed on the mapping, on compose_headers and on the wire through the clients, plus random histories.' + COMMON
NOTES['C21'] = 'Design model: two registries under every short history of registering and unregistering media types in several spellings answer by the latest registration and never influence each other (exhaustive); replayed on MimeCodec with every lookup, plus random histories, calls and responses of Apps using recording codecs, and JSON text of random primitives.' + COMMON
NOTES['C13'] = 'Design model: credentials provided, replaced and applied into the containers of requests sent again and again carry exactly what is required and was provided last (exhaustive over histories of 3, thorough 4, steps); every such history replayed through the clients, plus random security definitions, requirements (own, inherited, emptied, alternatives), collisions and histories.' + COMMON
NOTES['C11'] = 'Design model: a response applied in pieces (status, headers, body in any order and number, up to 2 steps) holds what the history of pieces says, declared by status, by default (through a reference) or not at all (exhaustive); replayed (a third per quick run, rotating with the seed), plus random declarations, pieces, resets, and replies read through the clients.' + COMMON
NOTES['C12'] = 'Design model: pairs keeping their parts in containers written while preparing and sending; whatever was provided, sent, refused or misread before, a pair that is reset first sends and holds what a fresh one would (exhaustive over histories of 3 steps with 3 pairs, 5 options, 3 replies); those histories replayed (rotating sample of about 1200 in a quick run), plus random longer histories over shared clients, security objects, options, headers and arguments, all compared before and after, and the description dumped before and after.' + COMMON
NOTES['C03'] = 'Design model: a depth-first search over every graph of 3 (thorough 4) schemas, in every order, ends within a number of steps linear in the graph and finds a cycle iff there is one (safety and liveness, exhaustive); all those graphs prepared, plus random schema graphs over several documents, long chains, ladders with exponentially many paths, circles of path items, parameters and responses, and finite values of recursive models.' + COMMON
NOTES['C02'] = 'Design model: a description of several documents referring to each other, read through any mapping of a load hook, in any order of resolving; each document is fetched at most once, from where the hook says, and what a reference gives does not depend on the order (exhaustive histories of 3 references under every hook of the small domain); those histories replayed, plus random descriptions (several documents, awkward texts and status codes) loaded from nineteen kinds of source and compared, among them files read under another locale, and descriptions that are not ones.' + COMMON
NOTES['C04'] = 'Design model: path items completed in place one after another, in any order, whatever they refer to (path items of this or another document, chains, circles, siblings): each operation ends up with what its position says (exhaustive over 1350 small descriptions); these are prepared with their keys shuffled (half of them per quick run, rotating with the seed), plus random descriptions of up to four documents with shared, overridden and referenced parameters, responses and path items, and calls.' + COMMON
NOTES['C05'] = 'Design model: schemas aggregated one by one in any order, each taking over what its members are by then; the result is what the declarative aggregation says whatever the order, and nothing declared changes (exhaustive over small inheritance graphs); these graphs are prepared (a sixth per quick run, rotating with the seed), plus random ones over several documents with nested, shared, recursive and inline members.' + COMMON
NOTES['C17'] = 'Specification of every documented rule (Validate.tla: which object, where, which message) for 1.2 and 2.0. Exhaustive: 704 descriptions of a 1.2 API with up to two broken rules, enumerated by TLC, validated and prepared strictly and leniently; plus random listings and 2.0 documents (JSON and YAML with numeric status codes) with up to five changes. Compared: the set of <<pointer, class, message>>, each reported once, before and after preparation; strict validation and preparation raise exactly for errors. Not covered: rules of Api objects (dropped when loading), readOnly through $ref or allOf (documented limitation).'
NOTES['C18'] = 'Design model: the renderer draw by draw (which optional properties, which dropped or added for min/maxProperties, how many more, which multiple within bounds, which length); every outcome satisfies the declaration, no draw gets stuck when a value exists, and no fitting integer is out of reach (4317 declarations with options, exhaustive). Each of these rendered by the real code 5 times with draws biased to their extremes, plus random nested declarations, options, parameters, templates and exclusions; each result is judged by the declarative Sat of Render.tla and converted or passed to the operation. Claimed for declarations with a named type that state each bound once (members of allOf included).'
NOTES['C16'] = 'Design model: a 1.2 description upgraded element by element in any order (operations, parameters, models and their sub-types) is the 2.0 document specified, has no unknown field, and every reference in it leads to a schema (exhaustive over small descriptions); a quarter of them loaded per quick run, plus random listings of up to 3 resources with models, sub-types, authorizations, base paths and separators; calls judged in 1.2 terms.' + COMMON
NOTES['C15'] = 'Design models: a description prepared, written down and loaded in its own place again and again means the same (operations assembled through references, everything else declared) and is written the same (exhaustive over 1350 small descriptions); comparing part by part in any order finds a difference iff there is one (exhaustive over pairs of small trees). Replayed (a sixth per quick run), plus random descriptions with dumps before and after use, reloads, and comparison with the same description changed at one place.' + COMMON
