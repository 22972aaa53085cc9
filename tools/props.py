P('C01', 'Loading a document and dumping it back loses and invents nothing',
  'Dumping any object loaded from a Swagger 1.2, Swagger 2.0 or OpenAPI 3.0.0 document gives back every field the '
  'specification defines with its exact value and type, at every depth, and nothing that was not in the document '
  '(nulls, unsupported extensions and empty optional containers aside). '
  'Dumping twice, or loading what was dumped, gives the same again, and the source document is never modified.',
  ['inputs'], 'all documents the published grammars of the three versions allow, with odd keys, falsy and nested values',
  'The tests dump a few hand-written fixtures, each using a small share of the fields and none of the falsy or odd '
  'values.', [OBJ, O1, O2, O3], [('dump of objects, maps and lists', OBJ), ('field tables of each object type', O3)],
  'grammar-driven workload + reference serializer as oracle',
  'Random documents from grammars written from the published specifications; decided type-strictly on every load.')

P('C02', 'Every field reads back by name and by snake_case alias',
  'Every field of every object type of the three specifications reads back exactly as in the document, under its own '
  'name and under its snake_case (or keyword-safe) alias; an absent optional field reads as its documented default, '
  'reading a required field that is absent raises, and whether a field was set is reported truthfully. '
  'A rewritten $ref reads back under both names and in the dump, and changes neither the other fields nor the loaded '
  'document; repeated reads of a nested object give the same object.',
  ['inputs'], 'all object types and fields, present or absent, with any value',
  'The tests read a few dozen of the several hundred (type, field, alias) combinations.',
  [OBJ, O1, O2, O3], [('field, child, rename property factories', OBJ)],
  'exhaustive field table sweep over random objects, value oracle from the raw document',
  'All (type, field, alias) triples on random objects, both present and absent.')

P('C03', 'JSON pointers, paths, parents and children agree with the document',
  'Every location of a document is reached by its JSON pointer and gives what plain indexing of the document gives '
  '(including values inside maps, lists and opaque values, and keys containing / or ~); the path reported by each '
  'object is its pointer, its parent is the object containing it, and the children it lists are exactly the objects '
  'directly below it, named by escaped relative pointers. '
  'A pointer that leads to nothing in the document is rejected.',
  ['inputs'], 'all documents, all valid and invalid pointers',
  'Tests resolve a handful of fixed pointers in fixtures without special characters.',
  [OBJ, UTILS, BASE], [('pointer resolution of objects, maps and lists', OBJ), ('listing of children', OBJ)],
  'every location visited, differential oracle against raw indexing',
  'All locations of random documents by pointer, child listing and through the app; invalid pointers too.')

P('C04', 'Traversal visits each object exactly once, with its path',
  'Scanning an object tree calls the handlers registered for the type of each object exactly once per object, with the '
  'exact JSON pointer of that object, for every object reachable in the tree and no other; several handlers and '
  'several routes all see every object, and results are delivered to the registered collector in step. '
  'Objects of a type declared as a leaf are visited but nothing below them is.',
  ['inputs', 'configurations'], 'all trees, sets of handlers, routes, leaves, traversal strategies',
  'Tests scan one or two fixtures and check that some path was visited, not that all were and once.',
  [SCAN, OBJ], [('tree traversal and dispatch', SCAN), ('listing of children', OBJ)],
  'event-log monitor over handler calls, checked against the tree derived from the document',
  'Both scanning entry points; multiset equality of (path, type) events against a grammar walk.')

P('C05', 'Comparison reports a difference iff there is one, and where',
  'Comparing two objects reports no difference when they were built from the same content, whatever the key order, '
  'and for any single change to a specified field, list length, list element, map key or nested value of either side '
  'reports a difference located on the path from the compared object to the change. '
  'The verdict does not depend on which of the two is the left-hand side.',
  ['inputs'], 'all objects and all single mutations of them',
  'Tests compare a few pairs; an ignored field or container is invisible to them.',
  [OBJ], [('compare of objects, maps and lists', OBJ)],
  'mutation workload with a known-difference oracle', 'Random objects, random single mutations at any depth.')

P('C06', 'Objects stay coherent under any history of updates',
  'After any sequence of attaching children, setting and appending elements, extending lists, merging path items and '
  'rewriting references, reads, lookups, membership, lengths, iteration, child listings, dumps, parents and pointer '
  'resolution of an object all reflect exactly the updates applied so far. '
  'Merging only fills children the target lacks and never modifies the merged source.',
  ['histories'], 'all sequences of update operations',
  'Tests apply at most one update before looking.', [OBJ],
  [('attach_child, map and list updates, merge', OBJ)],
  'model-based history checking (plain dict/list model, full read-back after each step)',
  'Random histories of up to dozens of operations, the whole tree compared with the model after each step.')

P('C07', 'JSON pointer encoding is lossless',
  'Composing any sequence of string tokens into a JSON pointer and splitting it again gives the same tokens, '
  'different sequences give different pointers, escaping follows RFC 6901, and appending to a base only ever extends '
  'the base. A split limited to n steps leaves the rest of the pointer as it was for later splitting.',
  ['inputs'], 'all token sequences, including empty tokens, ~, /, ~0 and ~1', 'Tests use four fixed strings.',
  [UTILS], [('pointer compose and split', UTILS)], 'round-trip and reference codec oracle',
  'Random hostile tokens plus exhaustive short strings over the alphabet ~ / 0 1 a.')

P('C08', 'References and URLs are normalised as URLs, not as strings',
  'A relative reference resolves against the URL of the document containing it as RFC 3986 prescribes, a local pointer '
  'stays in that document, an absolute reference stays as it is, and the pointer part is never altered; normalising '
  'what is already normalised changes nothing. Splitting a reference and joining it again gives the same reference, '
  'and folder, join and dot-segment operations on URLs keep scheme, host, query and other components.',
  ['inputs'], 'all (reference, base url) combinations', 'Tests use a dozen fixed pairs.',
  [UTILS, N2], [('reference normalisation', UTILS), ('split of references', UTILS)],
  'differential oracle against urllib RFC 3986 resolution', 'Random base urls and references of every shape.')

P('C09', 'Scoped names resolve exactly, uniquely, or not at all',
  'A name kept in a scoped dictionary is found by its full scoped name given joined or as a tuple, always before any '
  'shorter match, and by any trailing part of it that is unambiguous; an ambiguous part raises an error saying so and '
  'an unknown one raises a lookup error, never another entry. Splitting a composed scope gives back its parts, for '
  'any separator.',
  ['inputs', 'histories'], 'all sets of scoped names, lookups and separators', 'Tests use one five-entry dictionary.',
  [UTILS], [('ScopeDict', UTILS)], 'reference model over random dictionaries and queries',
  'Token-aligned suffixes decided by an independent model.')

P('C10', 'Structural comparison of JSON containers is sound and located',
  'Comparing two JSON containers whose lists each hold values of one type returns an empty list exactly when they are equal (lists of scalars compared without '
  'regard to order, keys filtered by inclusion and exclusion), reports every differing key, scalar, length and type '
  'with its JSON pointer, and reports nothing else. Neither input is modified.',
  ['inputs'], 'all pairs of JSON containers', 'Tests use a dozen fixed pairs.', [UTILS],
  [('compare_container', UTILS)], 'independent reference comparison', 'Random pairs with planted differences.')

P('C11', 'Each document is fetched exactly once, through the hook, keyed by its URL',
  'For any reference graph over any number of documents, an app fetches every document reachable from what was asked '
  'exactly once, whatever the number and spelling order of references to it, and fetches no other; every fetch goes '
  'through the redirect hook while identity, reported locations and caching keep using the original URL. '
  'A getter given for one request is used for that request and its results are shared like any other.',
  ['histories', 'configurations'], 'all reference graphs, hooks, getters and request sequences',
  'Tests load small fixtures and do not count fetches.', [RES, BASE, GET],
  [('resolver cache and hook', RES), ('object store', STORE)],
  'event-log monitor at the loading boundary (exactly-once, completeness, no extra)',
  'The fetch log compared with reachability computed on the raw documents.')

P('C12', 'The same document gives the same API from any source and format',
  'A document given as a JSON text, YAML text, bytes, dictionary, local file (named, by folder, without extension, '
  'relative, or with spaces and non-ASCII characters in its path) or HTTP resource loads, resolves and migrates to the '
  'same objects, YAML integer response codes included, whatever the locale. Which file a path, a folder or a name without extension '
  'stands for follows the documented rules. Content that is not a document is rejected; nothing but plain data is '
  'ever built from a document, no resource stays open.',
  ['inputs', 'configurations'], 'all documents times all sources and formats',
  'Tests load mostly JSON fixtures by one kind of path.', [GET, RES, UTILS, BASE],
  [('getters', GET), ('yaml fix-ups', 'pyopenapi/migration/versions/v2_0/scanner/yaml.py')],
  'differential monitoring of one document over all sources (files, loopback HTTP, in memory)',
  'Random documents through every source; dumps of the results compared.')

P('C13', 'Every reference leads to exactly the object it names',
  'After loading, each reference in a Swagger 2.0 or OpenAPI 3.0.0 document (at any place the specification allows '
  'one, within or across documents, through chains of references) leads to the object found at the location it '
  'names, and dereferencing ends at the first object that is not a reference. After migration the migrated '
  'reference leads to the migration of that same object.',
  ['inputs'], 'all reference graphs over several documents and names (one a prefix of another, special characters)',
  'Tests check single references between fixtures with distinct names.', [R2, R3, BASE, STORE, UTILS],
  [('resolution of references', R3), ('deref', UTILS)],
  'unique markers in documents + independent resolution of references on the raw documents',
  'Markers of objects reached compared with markers the raw documents say, 2.0, 3.0 and 2.0 to 3.0.')

P('C14', 'One object per location, alive as long as the app',
  'Within an app all references to one location lead to one and the same object, which is also the one reached by '
  'navigating the document from its root and by resolving the location by hand, in whatever order the '
  'parts were loaded; asking again, in a newer version as well, gives the object given before. Those objects stay usable as long as the app, and resolving never hands out strong '
  'references that keep a dropped app alive.',
  ['histories', 'inputs'], 'all orders of loading and resolving parts of documents',
  'Tests check identity for one or two references.', [STORE, BASE, OBJ],
  [('object store lookups and overrides', STORE), ('weak references handed out', BASE)],
  'identity monitor over all references and pointers + garbage collection observer',
  'Underlying identities collected over all routes to a location; gc observed through weakrefs.')

P('C15', 'Path items that refer to others are merged completely and locally',
  'The merged form of a path item with a reference has each operation and parameter list from the first path item on '
  'its reference chain that defines it, chains within and across documents and cyclic chains included. '
  'The original path items keep their own content, and a path item without a reference is its own merged form.',
  ['inputs'], 'all chains and cycles of path item references', 'Tests cover one two-step chain per version.',
  [COMM, UTILS], [('merging of path items', COMM)], 'reference model of the merge on raw documents',
  'Random chains over several documents, 2.0, 3.0 and migrated.')

P('C16', 'Cyclic and dangling references never hang or pass silently',
  'Loading and migrating documents whose references form cycles of any length, within and across documents, always '
  'ends, with every reference on the cycle resolved; dereferencing a pure reference cycle reports a cycle. '
  'A reference to a document or location that does not exist is reported as an error, never resolved to '
  'something else.',
  ['inputs'], 'all cyclic graphs and dangling references', 'Tests cover a few small cycles.',
  [R2, R3, UTILS, COMM], [('cycle guard', UTILS), ('caching before resolving', M3)],
  'step-budget watchdog and fault injection on reference graphs',
  'CPU budget per case (thousands of times the usual), self loops, long cycles, cross-document cycles.')

P('C17', 'The object store behaves as a map from locations to objects',
  'After any history of stores, lookups, removals and route updates, a lookup returns the object last stored at or '
  'closest above that location (navigated down to it) in the requested version and document or nothing, a sub-tree listing '
  'returns exactly the objects stored under it with their relative locations, and removal removes exactly those. '
  'Lookups across versions return the newest available form at its relocated location.',
  ['histories'], 'all operation histories over nested, prefix-sharing and escaped locations',
  'Tests run fixed sequences of two or three operations.', [STORE],
  [('store get, get_under, get_until', STORE)], 'model-based history checking against a sequential reference model',
  'Random histories, every answer compared with the model.')

P('C18', 'Relocation of pointers follows the longest matching rule, token by token',
  'Relocating a pointer from one version to a later one applies, per version step, the longest matching '
  'relocation rule on whole tokens (nested rules included), keeps the rest of the pointer, leaves unmatched pointers '
  'and other documents alone, and composes over versions. Relocating to the same version changes nothing.',
  ['inputs', 'configurations'], 'all rule sets, pointers and version pairs', 'Tests use a few fixed rules.',
  [STORE], [('relocate', STORE)], 'independent token-based reference model',
  'Random nested rule maps and pointers.')

P('C19', 'Swagger 1.2 upgrades to 2.0 without loss or confusion',
  'Upgrading a Swagger 1.2 listing with its declarations produces the Swagger 2.0 document that states the same API: '
  'every operation at its path and method with its parameters, types, response model, media types, tags and security, '
  'every model under its declaration-scoped name with references pointing to it, and info, host, base path '
  'and security definitions as declared. Nothing of one declaration leaks into another.',
  ['inputs'], 'all listings and declarations', 'Tests compare two fixtures.', [U12, M2],
  [('1.2 to 2.0 upgrade', U12)], 'executable reference model of the upgrade',
  'Whole documents compared with an independently written model.')

P('C20', 'Swagger 2.0 migrates to OpenAPI 3.0 without loss or confusion',
  'Migrating a Swagger 2.0 document to OpenAPI 3.0.0 keeps every path, operation, parameter, response, header, schema '
  'keyword, tag, info and security item, expressed the 3.0 way: servers from schemes, host and base path (also per '
  'operation), parameter and header types under a schema, array formats as style and explode, responses '
  'and their examples under each produced media type, security schemes and flows renamed, definitions under '
  'components.',
  ['inputs'], 'all Swagger 2.0 documents without request payloads', 'Tests compare fixtures that use few fields each.',
  [CONV, M3], [('2.0 to 3.0 converters', CONV)], 'executable reference model of the migration',
  'Whole documents compared with an independently written model of the mapping.')

P('C21', 'Request payloads of Swagger 2.0 become equivalent request bodies',
  'For every operation, its body or form parameters (its own, inherited from the path item, or referenced) become one '
  'request body with each consumed media type, the declared schema, one property per form field with its constraints, '
  'encoding of array fields, required flags and description, file uploads as binary strings; other parameters stay '
  'parameters. Operations sharing path-level parameters each get their own body for their own media types.',
  ['inputs'], 'all combinations of payload parameters and media types', 'Tests compare a handful of operations.',
  [CONV, PCTX], [('request body conversion', CONV), ('parameter context', PCTX)],
  'executable reference model of the payload mapping', 'Random parameter sets compared with the model.')

P('C22', 'Locations of the old document lead to their migrated counterparts',
  'After migrating a Swagger 2.0 document, the JSON pointer of each definition (and of any schema inside it), '
  'parameter, response, header, security definition, path item, operation, tag and info object, and of the schemas and '
  'items inside parameters, payloads and responses, relocated, leads to '
  'the migrated form of the very object it named, and resolving the old reference gives that object and its new '
  'location, for parts of other documents too, whether or not anything refers to them. A migrated object reports '
  'as its path the pointer it is found at. Every reference inside the migrated document leads to an existing '
  'place of the right type. Distinct old locations never end at one new location.',
  ['inputs'], 'all documents and all of their pointers', 'Tests check fixed pointers on fixtures.',
  [CONV, STORE, BASE, M3], [('relocation maps', CONV), ('relocate', STORE)],
  'marker-based monitor over all locations of the old and the new document',
  'Every old location relocated and compared through unique markers.')

P('C23', 'Migration is deterministic, pure, and independent of the route taken',
  'Migrating the same documents gives the same result every time, whether in one step or version by version, from a '
  'fresh or a warmed-up app, in whatever process, and never modifies the source documents or the old objects; dumping the result and '
  'loading it again as a document of the new version gives the same document. The app reports the '
  'original and current versions truthfully, so does each document and root object, and unsupported versions are '
  'rejected.',
  ['inputs', 'histories'], 'all documents and migration routes', 'Tests migrate each fixture once, by one route.',
  [BASE, M2, M3, CONV], [('migrate_obj', BASE)], 'metamorphic monitoring over routes and repetitions',
  'Same documents over several routes, apps and orders; dumps and source snapshots compared.')

P('C24', 'Preparing a document in its own version does not change it',
  'Migrating a Swagger 2.0 document to 2.0 or an OpenAPI 3.0.0 document to 3.0.0 gives the same content: the dump is '
  'that of the loaded document, response codes being strings, and each reference still names the same location as '
  'written. The object returned is the one found at its location afterwards.',
  ['inputs'], 'all documents', 'Tests compare a few fixtures.', [M2, M3, R3, BASE],
  [('same-version preparation', M3)], 'identity oracle over grammar-driven documents',
  'Dump before and after compared type-strictly, with live references between documents.')

P('C25', 'Apps are isolated from each other',
  'What one app loads, resolves, migrates or has rewritten in its objects is never visible in another app, even when '
  'both are given the same documents, the same dictionaries or work in an interleaved order; each behaves as if '
  'it were alone.',
  ['histories', 'inputs'], 'all interleavings of operations on several apps', 'Tests never look at two apps together.',
  [OBJ, BASE, STORE, SCAN], [('class-level field tables', OBJ), ('object stores', STORE)],
  'interleaved twin-run monitor: each app compared with a solo run',
  'Random interleavings of two or three apps sharing documents; every observation compared with the solo run.')

P('C26', 'A failed load leaves the app as if it never happened',
  'When a document cannot be fetched or parsed, or a reference cannot be resolved, at any point of loading or '
  'resolving, the error reaches the caller and nothing half-done is kept: later requests for other things work, and '
  'asking again once the fault is gone gives the same result as if it had never happened.',
  ['fault_sequences', 'crash_points'], 'all fault points and fault kinds in loading sequences',
  'Tests cover one missing file.', [BASE, RES, STORE, GET],
  [('rollback when resolving fails', BASE), ('resolver cache', RES)],
  'fault injection at every fetch, twin-run comparison with a fault-free run',
  'Each fetch of a run is failed in turn, in several ways, then retried.')


P('C27', 'What cannot be represented is rejected, and nothing is made of it',
  'Loading a document of no supported version, or with something else where its specification has a list, a map or a '
  'string element of a list, raises, at any depth and in any document reached. Migrating raises SchemaError for what '
  'has no equivalent in the newer version: two bodies, or two form fields of one name, in an operation or path item; '
  'array formats where they are not allowed (ssv and pipes in path, header and response headers or without an array, '
  'tsv anywhere), oauth2 without a flow, extensions among the paths; in Swagger 1.2 minimum or maximum of what is no '
  'number, and references or non-primitive types in parameters and items that are no body. Senseless calls (an empty '
  'reference, storing what is no object, removing everything, unknown versions, handlers for foreign classes) raise '
  'too. A rejection never leaves a version, a stored object or a changed old object behind; the app goes on to work '
  'for everything else, and rejects the same again.',
  ['inputs', 'histories'], 'all places of all valid documents where one thing is put wrong; all histories after it',
  'Tests reject a handful of broken fixtures, and never look at the app afterwards.',
  [BASE, OBJ, STORE, GET], [('types of containers', OBJ), ('version of a document', BASE), ('what is stored', STORE)],
  'fault-seeded inputs: one defect put into a valid document, rejection and the state afterwards as oracle',
  'One thing is put wrong in generated documents of every version; rejection, type of error, state and later use decided.')

P('C28', 'Everything an app hands out was prepared by prepare_obj',
  'Each object an app hands out, or a reference in it leads to, is (part of) one that was given to prepare_obj with the '
  'location it is found at, in each version on the way to the one asked for. What prepare_obj returns is what is '
  'stored, found, referred to and migrated further; asking for the same again prepares nothing. An error it raises surfaces, '
  'leaves neither an object nor a version behind, and the same call later gives what it would have given.',
  ['inputs', 'histories'], 'all documents, routes of migration, and prepare_obj overrides that record, replace or fail',
  'Tests override prepare_obj in one or two fixtures to count calls.', [BASE, R2, R3, STORE],
  [('prepare_obj', BASE), ('resolution of references', R3)],
  'recording, replacing and failing prepare_obj hooks on the running app; log of calls as oracle',
  'Every object handed out or referred to matched with the log of prepare_obj calls.')
