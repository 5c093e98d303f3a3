AI = "abstract interpretation of the syntax tree (value provenance, path facts, inlining)"
prop('C01', "Access decisions follow the role tables",
 "A request is allowed exactly when the caller's global, organization or project role grants the permission asked for, for the organization or project asked for; every other request is refused with a forbidden error. A role held in another organization or project never grants anything here, and organization owners and admins hold every project permission.",
 ['inputs', 'configurations'], "every role, every permission, every membership list shape (none, matching entry, foreign entry, both), all organization and project ids",
 "No test exercises the permission checks; they depend on the product of roles, permissions and ids, of which any test samples a few.",
 ['src/platform/src/context.rs', 'src/common/src/rbac.rs'],
 [("permission checks", "src/platform/src/context.rs"), ("role to permission tables", "src/common/src/rbac.rs")],
 "constant propagation of every (role, membership, permission) combination through the permission checks",
 "Ids stay symbolic; an Ok exit for a foreign entry needs a dominating id-equality fact. Decides the three check functions and the role tables completely; that each API operation asks for the right permission is a separate property.")
prop('C02', "API requests and responses are translated without loss or mix-up",
 "Every value a client sends reaches the domain request field of the same meaning, and every stored or computed value reaches the response field of the same meaning. No field is dropped, swapped, defaulted or altered on the way in either direction.",
 ['inputs'], "all values of every API request and response type, in both directions, every enum variant",
 "No test covers the conversions; each has dozens of fields and variants and a swap of two equally typed fields passes every build and test.",
 ['src/platform/src/lib.rs', 'src/platform/src/event_segmentation.rs', 'src/platform/src/funnel.rs', 'src/platform/src/group_records.rs', 'src/platform/src/event_records.rs', 'src/common/src/query.rs', 'src/common/src/event_segmentation.rs'],
 [("Into/TryInto conversions between API, domain and query types", "src/platform/src/lib.rs")],
 "field-provenance dataflow over every conversion impl, per enum variant",
 "For each conversion: each target field must come from its namesake source field (or the recorded exception), unmodified; every variant maps to its namesake. Conversions are enumerated from the source, with floors on their number.")
prop('C03', "Filter values, operators and types keep kind and value across forms",
 "A filter value survives being written to JSON and read back with the same kind and value, and a property type, operator, value or aggregate is translated to its counterpart of the same meaning in every representation. Kinds that cannot be represented are refused, never silently changed.",
 ['inputs'], "all scalar kinds and values, all data types, operators and aggregate functions",
 "The existing tests cover three unrelated type helpers; the tables have over a hundred entries and one swapped entry stays invisible until that kind is used.",
 ['src/common/src/types.rs', 'src/common/src/scalar.rs', 'src/common/src/query.rs', 'src/common/src/arrow.rs'],
 [("scalar value (de)serialization", "src/common/src/scalar.rs"), ("type and operator conversions", "src/common/src/types.rs")],
 "case-by-case abstract evaluation of conversion tables, compared with identity tables",
 "Every enum case is evaluated symbolically through both directions; result constructor and payload are compared.")
prop('C04', "Query time ranges and intervals are computed exactly",
 "A relative, absolute or open-ended time range selects exactly the instants it names, and the time buckets of a chart start where their unit starts and advance by exactly one unit. Durations given in a unit have exactly that length.",
 ['inputs'], "all time units, all counts, all instants",
 "The existing tests touch no date arithmetic beyond one format helper; a unit mix-up or off-by-one appears only for particular units and dates.",
 ['src/common/src/query.rs', 'src/common/src/types.rs'],
 [("time ranges and units", "src/common/src/query.rs"), ("truncation and bucketing", "src/common/src/query.rs")],
 "symbolic normal forms (integer polynomials over units) of every time computation",
 "Each time function is evaluated symbolically per unit and compared, as a normal form, with the documented formula.")
prop('C05', "Every failure is answered with its documented HTTP status",
 "Each kind of failure reaches the client as its documented HTTP status together with its own message: missing things are 404, conflicts 409, refused access 401 or 403, malformed requests 400, unimplemented features 501, the rest 500. A request body that does not parse is answered with 400 and never reaches the handler.",
 ['inputs', 'fault_sequences'], "every error variant, nested variants included, of the platform and ingester services",
 "No test looks at responses of failing requests; each of over sixty variants has its own mapping.",
 ['src/platform/src/error.rs', 'src/common/src/http.rs', 'src/ingester/src/error.rs'],
 [("error to response conversion", "src/platform/src/error.rs"), ("API error type and JSON extractor", "src/common/src/http.rs")],
 "per-variant abstract evaluation of error-to-response conversions; exit classification of the body extractor",
 "Every variant, nested ones expanded, is evaluated to its set of status constants, which must be exactly the documented one, with the payload reaching the response.")

prop('C06', "Columns, labels and names are derived the same way everywhere",
 "Every part of the system that stores, queries or shows a value derives the same column name, constant, label and text form for it. A name written by one component is the name every other component reads.",
 ['inputs'], "all property kinds, ids, orders, event references, breakdowns, constants and display forms",
 "Names are formatted in many crates and only meet at run time; no test spans two of them.",
 ['src/common/src/types.rs', 'src/metadata/src/properties.rs', 'src/common/src/query.rs'],
 [("column names", "src/metadata/src/properties.rs"), ("labels and text forms", "src/common/src/query.rs")],
 AI, "Each naming function is evaluated per case to its exact text form; constants are compared with the documented names.")
prop('C07', "API documents keep their documented JSON shape",
 "Every request and response type is read from and written to JSON under its documented camelCase field and variant names, with the documented tag. Optional fields stay optional and password fields are accepted only where documented.",
 ['inputs', 'configurations'], "every type reachable from an HTTP handler, every field, every variant",
 "No test serializes an API type; a renamed field or lost default breaks clients but compiles.",
 ['src/platform/src/lib.rs', 'src/platform/src/accounts.rs', 'src/common/src/types.rs'],
 [("serde attributes of API types", "src/platform/src/lib.rs")],
 "attribute and type-graph analysis of serde derives over the closure of HTTP types",
 "The wire shape (names, tags, defaults, skipping) of each type in the closure is computed from the serde attributes and compared with the naming convention and a table of exceptions.")
prop('C08', "A partial update changes exactly the fields it supplies",
 "Updating a stored entity sets every supplied field to the supplied value, leaves every other field as stored, stamps who and when, and stores the result under the same id. A field left out of the request is never cleared.",
 ['inputs'], "all subsets of optional fields, all entities",
 "Every field of every entity has its own branch; no test updates anything.",
 ['src/metadata/src/accounts.rs', 'src/metadata/src/reports.rs', 'src/common/src/types.rs', 'src/metadata/src/properties.rs', 'src/metadata/src/custom_events.rs'],
 [("update operations", "src/metadata/src"), ("OptionalProperty", "src/common/src/types.rs")],
 AI, "Every path of every update operation: each stored field must be the supplied value on paths where it is supplied and the previous value otherwise.")
prop('C09', "A created entity holds exactly what was asked for",
 "Creating an entity stores each requested value in the field of the same meaning, under a freshly assigned id, with creation time and creator set. What is returned to the caller is what was stored.",
 ['inputs'], "all create requests of all entities",
 "Swapping two equally typed fields of an entity compiles and passes the tests.",
 ['src/metadata/src/accounts.rs', 'src/metadata/src/events.rs', 'src/metadata/src/dashboards.rs', 'src/metadata/src/projects.rs', 'src/metadata/src/properties.rs'],
 [("create operations", "src/metadata/src")],
 AI, "Every path of every create operation: the stored value is traced field by field to the request, the sequence and the clock.")
prop('C10', "Metadata changes are all-or-nothing",
 "Every change of metadata happens inside one transaction that commits exactly once when the operation succeeds and never when it fails. Nothing is written around the transaction or after its commit.",
 ['schedules', 'crash_points', 'fault_sequences'], "every path, including every error exit, of every metadata operation",
 "A missing commit, a write outside the transaction or a commit after failure shows only on error paths and under concurrency.",
 ['src/metadata/src/accounts.rs', 'src/metadata/src/events.rs', 'src/metadata/src/custom_events.rs', 'src/metadata/src/index.rs', 'src/metadata/src/dictionaries.rs'],
 [("metadata stores", "src/metadata/src"), ("index helpers", "src/metadata/src/index.rs")],
 "typestate over all paths (transaction opened, written, committed)",
 "Each path of each operation is classified: writes use the operation's own transaction, success exits of writers are committed, error exits are not, nothing is written after commit.")

prop('C11', "Uniqueness indexes agree with the stored entities",
 "Names and other unique fields identify at most one stored entity: creation and renaming are refused when the value is taken, and every stored entity is found under its current value and under no earlier one. Concurrent creations never take the same id or the same unique value.",
 ['inputs', 'schedules', 'histories'], "every unique field of every metadata entity, over create, update and delete",
 "An index entry left behind by one rename, or one unlocked read, shows only after a certain history or interleaving.",
 ['src/metadata/src/index.rs', 'src/metadata/src/accounts.rs', 'src/metadata/src/events.rs', 'src/metadata/src/properties.rs'],
 [("index helpers", "src/metadata/src/index.rs"), ("entity stores", "src/metadata/src")],
 AI, "Every path of create/update/delete: the set of index keys checked, written and removed is computed and compared with the unique fields of the entity; id and uniqueness reads must lock.")
prop('C12', "Stored keys never collide and readers use the keys writers use",
 "Two different things never share a storage key: kinds of entity, projects, and indexes are all kept apart. Whatever is stored is found again by the operation that looks it up, lists it or removes it, in the same project and of the same type.",
 ['inputs', 'histories'], "every storage key built in the metadata crate, for all field values",
 "Keys are byte strings joined at run time; a collision or a mismatch needs two operations of different stores to meet.",
 ['src/metadata/src/lib.rs', 'src/metadata/src/dictionaries.rs', 'src/metadata/src/groups.rs', 'src/metadata/src/accounts.rs', 'src/metadata/src/sessions.rs'],
 [("key construction", "src/metadata/src/lib.rs"), ("stores", "src/metadata/src")],
 "abstract evaluation of key templates and their unification",
 "Every key expression at every store access is evaluated to a template; templates of different things must not unify, and each read template must equal one written with the same value type.")
prop('C13', "Stored records are read back exactly as they were written",
 "Every record written to the metadata store, and the description of every storage table, is read back with the same value in every field: same variant, same number, same instant to the second. A record written by an earlier release keeps its meaning.",
 ['inputs', 'crash_points'], "every stored record type; every variant, option and list position; all field values",
 "The existing round-trip tests use one value per record (and cannot be built here); a swapped enum number or a dropped field shows for other values or after an upgrade.",
 ['src/metadata/src/accounts.rs', 'src/metadata/src/custom_events.rs', 'src/metadata/src/groups.rs', 'src/metadata/src/pb', 'src/storage/src/table.rs', 'src/storage/src/pb/metadata.proto'],
 [("record encoders and decoders", "src/metadata/src"), ("message schemas", "src/metadata/src/pb"), ("table descriptions", "src/storage/src/table.rs")],
 "symbolic composition of encoder and decoder per record shape; schema comparison",
 "For each shape (variant/option/list position in turn) the decoder is evaluated on the encoder's symbolic message and must give back the record; .proto numbers and labels are parsed, checked and compared with the released ones.")
prop('C14', "Every operation demands its documented permission before touching data",
 "No platform operation reads or changes stored data, or succeeds, unless the caller holds the permission that operation requires, in the organization and project the call names. The data then accessed belongs to that same organization or project, listings leave out what the caller may not view, and the caller is whoever the verified access token names.",
 ['inputs', 'histories'], "every platform operation and HTTP handler, every path through them",
 "No test exercises the operations; a check that is missing, too weak, too late or on the wrong entity shows only when someone without the right calls.",
 ['src/platform/src/context.rs', 'src/platform/src/projects.rs', 'src/platform/src/organizations.rs', 'src/platform/src/events.rs', 'src/platform/src/properties.rs', 'src/platform/src/accounts.rs', 'src/platform/src/http/mod.rs'],
 [("permission checks", "src/platform/src/context.rs"), ("operations", "src/platform/src"), ("handlers", "src/platform/src/http")],
 "dominance (must-dataflow of the successful check) over all paths, with argument provenance",
 "For each operation every call on a store or engine and every Ok exit must have the documented check's success in its must-facts, with the named project/organization; handlers may not reach stores directly and must forward the caller's context.")
prop('C15', "Passwords, tokens and secrets are handled safely",
 "Tokens are issued, and an account's password or email is changed by its owner, only after that account's password, refresh token or forced-change flag was verified, and only for that account. Passwords are stored only as salted hashes of sufficiently strong ones, tokens are signed and verified with their own key and expire as configured, and no response ever carries a password, hash, signing key or other secret.",
 ['inputs', 'histories'], "every authentication operation, token and password function, response type and settings answer; every path",
 "No test exercises authentication; a skipped check or a swapped key shows only to an attacker.",
 ['src/platform/src/auth/provider.rs', 'src/platform/src/auth/token.rs', 'src/platform/src/auth/password.rs', 'src/platform/src/settings.rs', 'src/cmd/src/lib.rs'],
 [("authentication operations", "src/platform/src/auth/provider.rs"), ("tokens", "src/platform/src/auth/token.rs"), ("passwords", "src/platform/src/auth/password.rs"), ("settings answers", "src/platform/src/settings.rs")],
 "typestate/dominance over all paths, key and value provenance, type reachability of secret fields",
 "Each token-issuing and account-changing call must have the verification's success in its must-facts on the same account; keys, algorithms and expiry are compared term by term; all types reachable from handler results are searched for secret fields.")

prop('C16', "An API request reaches the operation and entity it names, whole",
 "A request's verb and path select exactly one operation, on the collection, project, group and entity that the path names, and it succeeds only with that operation's own result. Every field of the request body reaches the same-named field of what is stored, nothing the request lacks is stored in its place, and the caller is recorded as author. Every setting of a settings update, and only those, replaces the stored one.",
 ['inputs'], "all 74 routes, every handler, every create/update/delete/read operation, every setting and enum value; every path",
 "There are no tests of the HTTP interface; exchanged path parameters or a dropped field show only for one route and one kind of request.",
 ['src/platform/src/http', 'src/platform/src/accounts.rs', 'src/platform/src/settings.rs'],
 [("routes", "src/platform/src/http/mod.rs"), ("handlers", "src/platform/src/http/properties.rs"), ("operations", "src/platform/src/accounts.rs"), ("settings", "src/platform/src/settings.rs")],
 "abstract evaluation of the router term to a route table, argument provenance per handler and operation",
 "The router-building code is evaluated to a term, from which verb, path, handler and surrounding layers are read; each handler is evaluated to its operation call, whose arguments must be the path parameters in path order and the body; each operation is evaluated to its store call, whose request must be built field by field from the API request; settings updates are evaluated once per setting and enum value.")
prop('C17', "Queries filter, group and show what the request says",
 "The plan of every query keeps exactly the rows of the request's own project that satisfy the request's time range, events and filters: no condition is lost, weakened, applied twice or to another column. It groups, aggregates, orders and limits them as requested, and shows the requested columns once each, under their names, with dictionary values decoded exactly once, after every comparison on keys and before every comparison on text. Every column the plan uses is read from storage.",
 ['inputs'], "the plan builders of event and group search, property values, funnels and event segmentation, evaluated on a matrix of requests (time forms, events, filters, operators, dictionary widths, breakdowns, queries, formats); all values symbolic",
 "The query crate's tests build no longer, cover one request each and print the result; a dropped filter or a column decoded twice shows only for one combination.",
 ['src/query/src/event_records.rs', 'src/query/src/group_records.rs', 'src/query/src/properties.rs', 'src/query/src/funnel.rs', 'src/query/src/event_segmentation.rs', 'src/query/src/expr.rs', 'src/query/src/lib.rs'],
 [("event search", "src/query/src/event_records.rs"), ("group search", "src/query/src/group_records.rs"), ("property values", "src/query/src/properties.rs"), ("funnels", "src/query/src/funnel.rs"), ("event segmentation", "src/query/src/event_segmentation.rs"), ("conditions", "src/query/src/expr.rs")],
 "abstract evaluation of the plan builders to plan terms, compared operator by operator with the plan the request calls for",
 "Each builder is interpreted over a finite matrix of request shapes with symbolic values and a metadata model; the resulting plan term (operators, conjunct sets, columns, decode sets, aggregates, names, order, limits, inputs) must equal an independently computed one.")
prop('C18', "Requests that cannot be planned are refused, the others normalised once",
 "A query request is refused, with the documented kind of error and before anything is planned, exactly when it names an unknown event, property or group, has reversed bounds, empty parts, steps out of range, an operation or a value that does not fit the property, or a feature that is not implemented. An accepted request is planned as given, for its project, after one normalisation: empty lists become absent and numbers compared with timestamps become timestamps. Its answer is the provider's, value by value, in the format asked for.",
 ['inputs'], "the five query operations, their validators, normalisers and JSON value conversions, evaluated on a matrix of requests (each part valid, unknown, foreign, empty, reversed or of another kind, in every position); values symbolic",
 "There are no tests of the validators; each mistake shows only for one malformed part in one position of one kind of request.",
 ['src/platform/src/lib.rs', 'src/platform/src/funnel.rs', 'src/platform/src/event_segmentation.rs', 'src/platform/src/event_records.rs', 'src/platform/src/group_records.rs', 'src/platform/src/properties.rs', 'src/query/src/lib.rs', 'src/query/src/funnel.rs', 'src/query/src/event_segmentation.rs', 'src/query/src/event_records.rs', 'src/query/src/group_records.rs'],
 [("filter values and references", "src/platform/src/lib.rs"), ("request validators", "src/platform/src/funnel.rs"), ("normalisation", "src/query/src/lib.rs"), ("answers", "src/platform/src/lib.rs")],
 "abstract evaluation of validators, normalisers and operations on a matrix of requests, compared with a table of outcomes; dominance of validation over planning",
 "Each validator and normaliser is interpreted on every request of the matrix against a metadata model; the set of outcomes must be exactly the expected one. In each operation the call that plans must be dominated by the successful validation of the same request and project.")
prop('C19', "Ingested events and profiles are stored as the client sent them",
 "An ingested event is stored once in its project's event table under the next record id, with the client's time and the ids of its event, user, session, properties and groups, created on first use; every property lands in the column of its own type, in that column's scale and dictionary. Profiles and group values are merged into the record their id names, and every request is answered only when all of it is stored. When a part fails or the body cannot be read, that is the answer and nothing after it is done.",
 ['inputs'], "the two ingestion endpoints, executors, enrichers and stores, interpreted on a matrix of requests (ids present or absent, known or new session, property kinds and types, groups, full and short context, each part failing); values symbolic",
 "The ingester's tests do not build here and only parse one payload; each combination of ids, session state, property type and failing part takes its own path.",
 ['src/ingester/src/executor.rs', 'src/ingester/src/lib.rs', 'src/ingester/src/destinations', 'src/ingester/src/transformers', 'src/ingester/src/sources/http/mod.rs', 'src/cmd/src/lib.rs'],
 [("what is stored", "src/ingester/src/destinations/local"), ("users, sessions, properties and groups", "src/ingester/src/executor.rs"), ("property values", "src/ingester/src/lib.rs"), ("endpoints", "src/ingester/src/sources/http/mod.rs")],
 "effect analysis: abstract interpretation of each case against symbolic parts, comparing the effects, their arguments and the answer with a table",
 "Each function is interpreted on concrete request shapes with symbolic values; the calls it makes on metadata, storage, enrichers and stores must be exactly the listed ones, with the listed arguments and required order, and each call failing in turn must end the function with that failure and no further call.")
prop('C20', "Start-up, session ends and backups do what they record",
 "Start-up opens storage, keys, databases and both servers in order on the configured paths and addresses, keeps the keys it has made, and stops at the first failure. The session cleaner stores one end event for each session past its time, with that session's ids, and drops the session afterwards. One backup is taken per due minute with the configured content, destination and password, and its record ends as completed only when the archive has been written and stored, as failed otherwise.",
 ['inputs', 'configurations', 'fault_sequences'], "the start-up, session cleaner and backup functions of the server binary, interpreted on each provider, schedule, key and settings state and with each part failing; values symbolic",
 "The server binary does not build here and has no tests; each combination of schedule, provider, encryption, stored key and failing step takes its own path.",
 ['src/cmd/src/lib.rs', 'src/cmd/src', 'src/metadata/src/backups.rs'],
 [("start-up and the session cleaner", "src/cmd/src"), ("keys and sessions", "src/cmd/src/lib.rs"), ("backups", "src/cmd/src/backup.rs"), ("backup records", "src/metadata/src/backups.rs")],
 "effect analysis: abstract interpretation of each case against symbolic parts, comparing the effects, their arguments and the answer with a table",
 "Each function is interpreted with symbolic settings; the calls it makes on files, storage, metadata, archive and cloud clients must be the listed ones with the listed arguments and order, each failing call in turn must lead to the listed answer and record, and no later effect.")
prop('C21', "Query operators keep parameters, types and scale through planning",
 "Every logical query node keeps what it was built with, names all its inputs and is rebuilt from new inputs unchanged otherwise; each becomes the physical operator of its kind with the same parameters, inputs and announced columns, and operators are rebuilt the same way. Each aggregate is computed by the accumulator of its function and type, announces the column name and type it produces, works at the decimal scale of its result, hands over each partition's result once including the last, and partial results of a group are combined by the matching function. Segments and funnels are computed with the comparison, time range, steps, filters and touch that were asked for.",
 ['programs', 'inputs'], "every logical node and physical operator constructor, every aggregate function on every column type, inner and outer, partial and final; every segment comparison and time range; every funnel option",
 "The query crate does not build here; types × functions × halves give hundreds of combinations of which a test could pick few.",
 ['src/query/src/logical_plan', 'src/query/src/physical_plan', 'src/query/src/physical_plan/planner'],
 [("logical nodes", "src/query/src/logical_plan"), ("planner", "src/query/src/physical_plan/planner"), ("operators and accumulators", "src/query/src/physical_plan")],
 "effect analysis: abstract interpretation of constructors, planners and accumulators on each case, comparing what they build, call and announce with a table",
 "Constructors, rebuild methods and planners are interpreted with symbolic parameters and must build exactly the listed operator; accumulator functions are interpreted on small terms, and the conversions, scales and order of calls around them must fit their type parameters.")
prop('C22', "Rows are logged before they are stored, and read back from log and parts",
 "A row is accepted only with a value of the right type for every column, is written to the table's log before it is put in memory, and both happen under the table's metadata; a flush writes the part, then metadata naming the part and a new log, and only then drops the memory and the old log. Adding a field or a table, and replacing metadata, take effect only when written. At start-up every table is rebuilt from its metadata and the log that it names, rows logged before a field was added included, and a record that a crash left unfinished at the log's end is dropped; any other damage is an error.",
 ['inputs', 'crash_points', 'fault_sequences'], "insert, replace, flush, field and table creation and recovery of the storage engine, interpreted on concrete tables with symbolic rows, every call failing in turn and every order of effects; every data type",
 "The storage crate does not build here; its tests stop at no point between two writes, and each failing call takes its own path.",
 ['src/storage/src/db.rs', 'src/storage/src/memtable.rs', 'src/storage/src/table.rs', 'src/storage/src/lib.rs'],
 [("insert, flush, recovery", "src/storage/src/db.rs"), ("rows in memory", "src/storage/src/memtable.rs"), ("stored values", "src/storage/src/lib.rs")],
 "effect analysis: abstract interpretation of each case on a concrete table with symbolic rows, comparing calls, their order, the locks held and the final state with a table",
 "Each function is interpreted with locks as cells; the calls on files, metadata and parts must be the listed ones in the listed order under the listed locks, each call failing in turn must end the function with that error, nothing after it and the state that recovery expects.")
prop('C23', "Scans and merges use one state of a table and keep its files while needed",
 "A scan and a lookup read one state of a table: its memory and every part that may hold the key, none left out, with the columns asked for, missing ones as nulls. The files a scan reads stay until it ends or is dropped, and the files of merged parts are removed once nobody reads them and never before; a merge takes every part of the next level that shares a key with it and puts each row's part in exactly one level. The storage never takes two of its locks in both orders, or one twice.",
 ['inputs', 'schedules', 'programs'], "scan, get, counts of open files, garbage collection, choice and execution of merges; part and key layouts enumerated, rows symbolic; every lock taken on any interpreted path of the storage",
 "The storage crate does not build here; a test runs one schedule over one layout of parts, and lock cycles show only under one interleaving.",
 ['src/storage/src/db.rs', 'src/storage/src/compaction.rs', 'src/storage/src/lib.rs', 'src/storage/src/memtable.rs', 'src/storage/src/table.rs'],
 [("scan, get, garbage collection", "src/storage/src/db.rs"), ("merges", "src/storage/src/compaction.rs"), ("open files", "src/storage/src/lib.rs")],
 "effect and lock-order analysis: abstract interpretation of each case on a concrete table, comparing files, counts and locks with a table; acyclicity of the lock graph",
 "Each function is interpreted on concrete levels and parts with locks as cells; the files opened, counted, merged, closed and removed must be the listed ones under the listed locks, and the graph of locks taken while others are held, collected over all runs, must have no cycle.")
prop('C24', "A backup holds one state of the database and restore gives it back",
 "A backup writes one consistent state: all tables' metadata, logs and parts taken at one moment, the logs cut at the length they had then, with no file removed before it has been copied, while rows are still accepted. Restore reads exactly what backup writes, in its order and format, replaces the tables by it, and lets nothing else run meanwhile; a backup that cannot be read leaves the database as it was, and a failure of any step is the answer. Afterwards the tables are served from the restored files and merged and collected as before.",
 ['inputs', 'fault_sequences', 'schedules'], "full backup, full restore, their file variants and truncation, interpreted on concrete tables with symbolic rows; every read, write, copy and removal failing in turn",
 "The storage crate does not build here; each failing step and each table layout takes its own path, and what may happen between two copies depends on the locks held.",
 ['src/storage/src/db.rs'],
 [("backup and restore", "src/storage/src/db.rs")],
 "effect analysis: abstract interpretation of backup and restore on a concrete database, comparing what is written and read, in which order and under which locks, with a table",
 "Both directions are interpreted with locks as cells; the sequence of writes must equal the sequence of reads, each under the listed locks, and each call failing in turn must end with that error and the listed state of tables and files.")
prop('C25', "The metadata store holds what was asked and answers from it",
 "Each metadata operation finds, creates, changes, lists or deletes exactly the records and index entries of the entity asked for: unique names and numbers are refused a second time, identifiers are never reused, both sides of a relation (membership, attached properties, referenced events) and memory caches follow, and what is not supplied is left alone. An operation on something that does not exist answers not found. An operation refused or failing at any step leaves the store as it was and answers that error.",
 ['inputs', 'histories', 'fault_sequences'], "every operation of accounts, organizations, projects, teams, events, custom events, properties, groups, dictionaries, reports, dashboards, bookmarks, sessions, backups and settings, on stores with none, one and several records; every access to the store failing in turn",
 "The metadata crate does not build here; each record layout and each failing access takes its own path through the code, and a test exercises one of them.",
 ['src/metadata/src'],
 [("index and CRUD helpers", "src/metadata/src/index.rs"), ("list and identifiers", "src/metadata/src/lib.rs"), ("entities", "src/metadata/src/events.rs")],
 "effect analysis: abstract interpretation of every metadata operation over a concrete key-value map with symbolic payloads, comparing answer and final map with a table of effects",
 "Transactions, iterators and plain accesses are modelled on a map; serialized records are opaque terms (their round trip is C13). For each scenario the answer and the final map must equal the listed ones on every path, each access failing in turn must end with that error and an unchanged map.")
na('N01', "Query results are numerically right",
 "The numbers a query returns equal the aggregates, funnel conversions and cohort counts defined over the stored events that satisfy it.",
 ['inputs', 'histories'], "all sets of stored events, all batch boundaries",
 "A handful of fixed batches cannot sample batch boundaries, null patterns and event orders.",
 ['src/query/src/physical_plan/expressions', 'src/query/src/physical_plan/segmented_aggregate.rs'], [("aggregates and segment state machines", "src/query/src/physical_plan")],
 "The result is computed by data-dependent loops over unbounded row streams; a static argument would be a functional-correctness proof. C17 decides that the right operators are planned with the right parameters.")
na('N02', "Merging and compaction keep every row exactly once in key order",
 "After any number of flushes and compactions a table holds exactly the rows inserted, in primary key order, with replaced rows replaced.",
 ['histories'], "all sequences of inserts, flushes and compactions",
 "Overlaps of parts and page boundaries are far too many to sample.",
 ['src/storage/src/parquet', 'src/storage/src/compaction.rs'], [("mergers", "src/storage/src/parquet"), ("compactor", "src/storage/src/compaction.rs")],
 "Needs loop invariants over heap order of run-time chunks and cursors into encoded pages, which no sound static analysis in reach bounds.")
na('N03', "A scan sees every row acknowledged before it and none twice",
 "A reader concurrent with inserts, flushes and compactions sees each row acknowledged before it started exactly once.",
 ['schedules'], "all interleavings of scan, insert, flush and compaction",
 "Tests run one schedule.",
 ['src/storage/src/db.rs'], [("scan and flush", "src/storage/src/db.rs")],
 "Depends on interleavings of operations that release their locks in between, and exploring schedules is a different family. C22 and C23 decide which locks are held over each step and that they are taken in one order.")
na('N04', "No acknowledged event is lost in a crash",
 "Every event acknowledged to a client is there after a crash at any point and a restart.",
 ['crash_points'], "all crash points of log append, flush and compaction",
 "Tests do not crash.",
 ['src/storage/src/db.rs'], [("write ahead log and flush", "src/storage/src/db.rs")],
 "What survives depends on when pages reach the disk; the code never syncs, so no order of calls in the source decides it. C22 decides the order in which log, part and metadata are written.")
