#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A transaction changes the datoms exactly as its assertions and retractions say",
  "From any store state, applying an accepted transaction yields exactly the datoms that set semantics prescribe: asserting a present datom changes nothing, asserting a cardinality-one attribute replaces the entity's old value, asserting a cardinality-many attribute adds a value, retracting removes precisely the named entity/attribute/value and nothing else, and untouched datoms keep their value and transaction. The outcome depends neither on the order of the terms within the transaction nor on how many there are.",
  ["histories", "inputs"], "every reachable set of datoms x every transaction, for every attribute kind (value type, cardinality, uniqueness, index, fulltext, component) and transaction size",
  "The unit tests transact a dozen hand-picked transactions; they never combine a retraction with a different current value, all term orders, or batches at SQLite's variable limit.",
  ["db/src/tx.rs", "db/src/db.rs", "db/src/tx_checking.rs", "db/src/add_retract_alter_set.rs"],
  [("search tables and joins", "db/src/db.rs search/insert_non_fts_searches/insert_fts_searches"), ("datom update", "db/src/db.rs update_datoms"), ("term trie", "db/src/tx.rs into_aev_trie")],
  ["datoms table after Store/InProgress::transact", "TxReport"])

p("C02", "All notations of a transaction mean the same as their flat expansion",
  "Map notation, nested maps, vectors of values, reversed attributes, lookup references, idents in place of entity ids, the transaction function for the current transaction, and terms built with the programmatic entity builder have exactly the effect of the flat list of assertions and retractions they abbreviate, and are refused when that list is refused. A notation that is not allowed (for example a nested map that would create an unreachable entity) is refused, never partly applied.",
  ["inputs", "histories"], "every way of writing every small set of assertions and retractions, from several store states",
  "Tests check a handful of notations each with one example; equivalence between notations and interactions (reversed + retract, nested + lookup ref) are not exercised.",
  ["db/src/tx.rs", "edn/src/entities.rs", "edn/src/lib.rs", "transaction/src/entity_builder.rs", "db/src/internal_types.rs"],
  [("notation expansion", "db/src/tx.rs entities_into_terms_with_temp_ids_and_lookup_refs"), ("lookup ref resolution", "db/src/db.rs resolve_avs"), ("entity builder", "transaction/src/entity_builder.rs")],
  ["datoms and log after the transaction", "TxReport"])

p("C03", "Temporary ids resolve to the right entities, and new entities are always new",
  "A temporary id asserted with a unique-identity attribute and value (directly, or through other temporary ids that resolve) that some entity already has names that entity, everything asserted or retracted about the temporary id applies to that entity, and contradictory identifications are refused; temporary ids that share an identity value name one new entity, and all others name distinct new entities. The report maps each temporary id to the entity used, and an entity id handed out once is never handed out again for another entity, also after reopening the store.",
  ["inputs", "histories"], "every set of terms over a few temporary ids, identity attributes and values, from every relevant store state; every interleaving of allocation, failure and reopening up to a depth",
  "Upsert resolution is an iterated rewriting system; tests cover about ten shapes of input and never reopen the store between allocations.",
  ["db/src/upsert_resolution.rs", "db/src/tx.rs", "db/src/db.rs", "db/src/types.rs"],
  [("generation evolution", "db/src/upsert_resolution.rs Generation"), ("entid allocation", "db/src/types.rs Partition::allocate_entids"), ("partition map recovery", "db/src/db.rs read_partition_map")],
  ["TxReport.tempids", "datoms", "partition map after reopen"], [("partition map", "next entid per partition", "db/src/types.rs PartitionMap")])

p("C04", "No reachable store state violates its schema",
  "Whatever sequence of transactions is attempted, in every reachable state each datom's value has its attribute's type, a cardinality-one attribute has at most one value per entity, a unique attribute's value belongs to at most one entity, and an ident names at most one entity; every transaction that would break this, that contradicts itself, or that mentions entities, attributes or idents that do not exist is refused with an error (never a panic), and every other transaction is accepted.",
  ["inputs", "histories"], "every transaction of a few terms over values of every type, allocated and unallocated entities, known and unknown attributes, from every reachable state of a small domain",
  "Tests sample one or two violations per constraint and mostly check the error, not that every valid neighbour is accepted or that all notations check the same constraints.",
  ["db/src/tx_checking.rs", "db/src/tx.rs", "db/src/schema.rs", "db/src/db.rs", "db/src/internal_types.rs"],
  [("type and cardinality checks", "db/src/tx_checking.rs"), ("schema-aware value typing", "db/src/schema.rs SchemaTypeChecking"), ("unique index", "db/src/db.rs idx_datoms_unique_value"), ("allocated entids", "db/src/tx.rs ensure_entid_exists")],
  ["accept/refuse verdict of transact", "datoms after every transaction"])

p("C05", "The transaction log is the exact history of the store",
  "Replaying the log of assertions and retractions from the beginning gives exactly the current datoms, each with the transaction that asserted it; every accepted transaction appends precisely its net changes under a new, larger transaction id together with its own instant, as given in its report, and nothing ever alters earlier entries. Feeding the logged changes of one store to an empty one reproduces the same datoms.",
  ["histories"], "every history of accepted and refused transactions, several per database transaction, schema changes and no-op assertions included, up to a depth",
  "Tests compare the log after single transactions; no test replays a log, and no-op, replaced and re-asserted values are sampled at most once.",
  ["db/src/db.rs", "db/src/tx.rs", "db/src/debug.rs", "tolstoy/src/tx_processor.rs"],
  [("log writing", "db/src/db.rs insert_transaction"), ("tx ids", "db/src/tx.rs start_tx"), ("tx instant", "db/src/tx.rs get_or_insert_tx_instant")],
  ["transactions view", "datoms table", "TxReport"])

p("C06", "A failed or abandoned transaction leaves no trace",
  "When a transaction is refused, rolled back or dropped, or fails in the middle of a batch that is then abandoned, the store is exactly as before: datoms, log, schema, idents and everything held in memory (schema, caches, entity-id allocation as far as it can be observed), so that every later query and transaction behaves as if the failed one had never been attempted, and committed work of the same process survives.",
  ["histories", "fault_sequences"], "every history mixing committed, refused, rolled-back and dropped transactions, schema changes and cache registration, followed by every probe, up to a depth",
  "Tests check rollback of one data transaction; they do not probe in-memory schema, caches and allocation after failure of each kind at each point.",
  ["transaction/src/lib.rs", "src/conn.rs", "db/src/tx.rs", "db/src/cache.rs"],
  [("drop-to-rollback SQLite transaction", "transaction/src/lib.rs InProgress"), ("publish on commit", "transaction/src/lib.rs InProgress::commit"), ("cache overlay", "db/src/cache.rs InProgressSQLiteAttributeCache")],
  ["full dump of the file", "schema, cached lookups and query answers through the connection"])

p("C07", "Schema and idents in memory, on disk and as datoms always agree",
  "After every history of attribute definitions, alterations, ident changes and retractions, the schema a connection works with equals the schema another connection reads on opening the same file, which equals what the schema datoms say; index, uniqueness and fulltext treatment of existing and new data follow it, legal alterations take effect, illegal ones are refused, and the store can always be reopened.",
  ["histories"], "every history of schema transactions over a few attributes and idents up to a depth, with data present",
  "Tests install, alter and rename one attribute at a time; none compares in-memory schema with a reopened one after sequences of alterations, or ident moves within one transaction.",
  ["db/src/metadata.rs", "db/src/schema.rs", "db/src/db.rs", "core/src/lib.rs", "core-traits/lib.rs"],
  [("incremental schema update", "db/src/metadata.rs update_schema_from_entid_quadruples"), ("alteration rules", "db/src/schema.rs AttributeBuilder"), ("materialized views", "db/src/db.rs update_metadata")],
  ["Conn::current_schema before and after reopening", "schema/idents tables", "datom index flags"])

p("C08", "Committed transactions survive a crash at any point, and nothing else does",
  "If the process or machine stops at any moment while a store is being created, written or read, then on reopening the store contains exactly the transactions whose commit had returned, plus possibly all of the one whose commit was in progress, never a part of one; the reopened store is intact, consistent, and accepts new transactions.",
  ["crash_points", "histories"], "every crash point in the sequence of file operations of short histories, and every subset of unsynced writes lost (within the stated bound)",
  "No existing test interrupts anything.",
  ["db/src/db.rs", "transaction/src/lib.rs", "src/conn.rs"],
  [("SQLite journal and synchronous settings", "db/src/db.rs make_connection"), ("one SQLite transaction per InProgress", "transaction/src/lib.rs"), ("bootstrap in one transaction", "db/src/db.rs create_current_version")],
  ["the file contents after recovery by a fresh Store::open"])

p("C09", "A storage error at any point is reported and leaves the store as it was",
  "When any single read, write, sync or lock operation of the underlying storage fails during any store operation, that operation returns an error or succeeds completely; it never panics, reports success for lost work, or leaves partial changes, and the same connection as well as a fresh one then continues to work correctly with the state from before (or, if it reported success, after) the operation.",
  ["fault_sequences", "histories"], "every position of one injected I/O failure of every kind in every operation of short histories (open, transact, commit, query, cache, rollback)",
  "No existing test injects storage errors.",
  ["db/src/db.rs", "transaction/src/lib.rs", "src/conn.rs", "db/src/cache.rs", "transaction/src/query.rs"],
  [("error propagation", "db/src/db.rs, transaction/src/lib.rs"), ("SQLite rollback", "transaction/src/lib.rs InProgress")],
  ["result of each operation", "state through the same and through a fresh connection"])

p("C10", "Queries return exactly the answers Datalog semantics define",
  "For every query in the supported language, the set of answers equals the set of variable bindings that satisfy all of its where clauses over the current datoms: patterns with constants, variables, idents, unknown attributes and transaction ids, joins, or, or-join, not, not-join, comparison and type predicates, ground values and placeholders, in any order of clauses. A query that cannot be satisfied returns no answers, and malformed or unbound queries are refused with an error, never answered wrongly.",
  ["programs", "inputs"], "every query from a grammar up to a size x several databases containing values of every type that collide across attributes and types",
  "Tests translate or run about a hundred fixed queries; combinations of clause kinds, clause orders and type inference interactions are unbounded.",
  ["query-algebrizer/src", "query-projector/src", "query-sql/src/lib.rs", "transaction/src/query.rs", "edn/src/query.rs"],
  [("algebrizer", "query-algebrizer/src/clauses"), ("type inference", "query-algebrizer/src/clauses/mod.rs"), ("SQL translation", "query-projector/src/translate.rs, query-sql/src/lib.rs"), ("row projection", "query-projector/src")],
  ["q_once results"])

p("C11", "Find specifications shape, aggregate, order and limit answers as defined",
  "Relation, collection, tuple and scalar find specifications return the same underlying answers in the requested shape; results are distinct per combination of the variables found and ordered by; aggregates (count, min, max, sum, avg) with and without :with compute over exactly the right bag grouped by the plain variables; :order sorts as requested, :limit truncates the ordered answers, and pull expressions and corresponding-value selections attach to the right row.",
  ["programs", "inputs"], "every find specification from a grammar (1-3 elements, each shape, each aggregate, :with, :order, :limit incl. 0) x where clauses x databases with duplicates, ties and mixed types",
  "Tests run one or two examples of each aggregate and shape; grouping, distinctness and ordering interactions are not enumerated.",
  ["query-projector/src", "query-projector-traits/aggregates.rs", "query-algebrizer/src/lib.rs", "query-algebrizer/src/validate.rs", "query-projector/src/projectors"],
  [("projection", "query-projector/src/project.rs"), ("aggregates", "query-projector-traits/aggregates.rs"), ("ordering and limit", "query-algebrizer/src/lib.rs"), ("shapes", "query-projector/src/lib.rs")],
  ["q_once results"])

p("C12", "Attribute caching never changes any answer",
  "At every point of every history of transactions (committed, rolled back, in progress, altering the schema), registering or unregistering any combination of forward and reverse attribute caches never changes the result of any query or value lookup, on the store, inside the transaction that makes the change, or afterwards.",
  ["histories"], "every history of cache (un)registration, assertion, replacement, retraction, re-assertion, rollback and commit on cached attributes of each cardinality, up to a depth, with every query shape that consults the cache after each step",
  "Cache tests cover single updates in each direction; replaced and re-asserted values, rollback after cached changes and registration inside an abandoned transaction are not compared with uncached answers.",
  ["db/src/cache.rs", "src/conn.rs", "transaction/src/lib.rs", "query-algebrizer/src/clauses/pattern.rs", "transaction/src/query.rs"],
  [("transact watcher", "db/src/cache.rs InProgressCacheTransactWatcher"), ("overlay commit", "db/src/cache.rs InProgressSQLiteAttributeCache::commit_to"), ("algebrizer substitution", "query-algebrizer/src/clauses/pattern.rs")],
  ["q_once vs q_uncached", "lookup_value(s)_for_attribute with and without caches"])

p("C13", "Pull returns exactly an entity's current attribute values",
  "Pulling attributes of entities, directly or within a query, returns for every requested entity a map of exactly the requested attributes it currently has (all of them for the wildcard), every value of a cardinality-many attribute and the single value otherwise, under the requested alias and with idents for attributes, nothing for absent attributes, and the entity's id only when requested.",
  ["inputs", "histories"], "every pull specification up to a size (attributes, wildcard, alias, :db/id, unknown attributes) x every small set of entities x databases",
  "Tests pull from one fixture; attribute subsets, duplicates, aliases, caching and missing values are not enumerated.",
  ["query-pull/src/lib.rs", "query-projector/src/pull.rs", "query-projector/src/projectors/pull_two_stage.rs", "db/src/cache.rs"],
  [("puller", "query-pull/src/lib.rs Puller::pull"), ("attribute cache for entities", "db/src/cache.rs AttributeCaches::make_cache_for_entities_and_attributes")],
  ["pull_attributes_for_entit(y|ies)", "q_once with (pull ...)"])

p("C14", "Observers are told exactly about the committed changes they asked for",
  "Each registered observer is invoked once per commit that changed attributes it is interested in, with, in order, every transaction of that commit that changed an attribute it is interested in and the set of all attributes that transaction changed; it is never told about refused, rolled-back or uninteresting transactions, never after being unregistered before the commit, and commits are reported in commit order.",
  ["histories", "schedules"], "every history of register, unregister, transact (several per commit), rollback and commit over a few attributes and observers up to a depth, and every thread interleaving the notification path allows",
  "Tests register one observer and run two or three fixed transactions with sleeps.",
  ["db/src/tx_observer.rs", "db/src/watcher.rs", "transaction/src/lib.rs", "src/conn.rs"],
  [("observer service", "db/src/tx_observer.rs TxObservationService"), ("in-progress watcher", "db/src/tx_observer.rs InProgressObserverTransactWatcher"), ("dispatch on commit", "transaction/src/lib.rs InProgress::commit")],
  ["callbacks received by TxObserver functions"])

p("C15", "Readers see consistent snapshots, and a transaction sees its own changes",
  "A read in progress keeps seeing the state of the moment it first read, whatever other connections to the same file commit meanwhile; reads outside it never see uncommitted changes; a transaction in progress sees all of its own changes in queries, lookups, schema and pull; and of two connections that both want to write, one proceeds and the other waits or gets an error, so that committed transactions are equivalent to running one after another. A store begins every read and transaction knowing everything committed by then, also through other stores on the file: schema, cached values and the ids already taken (queries outside of both know schema and cached values as of the last time one was begun). Opening is part of this: stores opened at once on a file that is new or being written to all open, on one and the same store.",
  ["schedules", "histories"], "every interleaving of the steps of two or three clients (read begin/query/end, write begin/transact/query/commit/rollback) on one store and on one file",
  "Tests run a few fixed sequences on one connection; none interleaves readers with a writer step by step.",
  ["src/conn.rs", "transaction/src/lib.rs", "db/src/db.rs"],
  [("deferred and immediate SQLite transactions", "src/conn.rs begin_read/begin_transaction"), ("WAL", "db/src/db.rs make_connection"), ("metadata mutex", "src/conn.rs")],
  ["query results of every client at every step"])

p("C16", "Moving transactions off a timeline undoes exactly those transactions",
  "Moving the transactions from a given id onwards off the main timeline leaves datoms, schema, idents and the main log exactly as they were before the first of them, keeps the moved transactions intact on the other timeline, returns the schema and id allocation that a fresh open would read, and leaves a store on which later transactions behave as on one where the moved ones never happened; an illegal move (nothing to move, a timeline in use, or one that would take back a schema alteration which may not be taken back by transacting) is refused and changes nothing.",
  ["histories"], "every history of data and schema transactions up to a depth x every suffix to move",
  "Tests move two or three hand-written transactions; multi-transaction suffixes mixing schema and data are not enumerated.",
  ["db/src/timelines.rs", "db/src/db.rs", "db/src/metadata.rs"],
  [("reversal", "db/src/timelines.rs reversed_terms_for/move_transactions_to"), ("materialize without log", "db/src/tx.rs TransactorAction::Materialize")],
  ["datoms, transactions and timelined_transactions tables", "returned schema and partition map"])

p("C17", "Stores that sync through the same server converge without losing changes",
  "When stores take turns (fetch before writing, send before another writes) under any sequence of transactions and syncs, every sync succeeds and reports what it did, each store ends up with exactly the log and datoms of the others, ids included, and new entities never get an id that is taken. When they write independently of each other, in any order of transactions and syncs, a sync succeeds, or fails changing neither store nor server; once everybody has synced with nothing new, syncing again changes nothing, all stores have the same log and datoms, and every entity new in a committed transaction is there exactly once with the values, references and attributes it was given (uniquely identified ones joined). A server that fails at any call before taking effect costs nothing: the sync fails, changes nothing, and succeeds when repeated. (Updates and retractions of existing entities made independently are merged as the prototype documents.)",
  ["histories", "schedules"], "every schedule of a few transactions and syncs over two or three replicas up to a depth",
  "Tests run about twenty fixed two-store scenarios.",
  ["tolstoy/src/syncer.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/tx_mapper.rs", "tolstoy/src/metadata.rs", "tolstoy/src/schema.rs"],
  [("fast-forward, merge and upload", "tolstoy/src/syncer.rs"), ("transaction mapping", "tolstoy/src/tx_mapper.rs"), ("sync metadata", "tolstoy/src/metadata.rs")],
  ["datoms and log of each replica", "the remote's transaction chain", "SyncReport"])

p("C18", "The log can be queried faithfully",
  "The transaction ids returned for a range given by transaction ids, or by transactions found by their instants, are exactly the committed transactions in that half-open range, and the data returned for a transaction are exactly its logged changes (entity, attribute, value, transaction, added), with values of every type intact and usable in joins with other clauses.",
  ["histories", "inputs"], "every history up to a depth x every range bound (ids, instants, out-of-range, equal, reversed) x binding forms",
  "Tests run the two functions on one small log with one type of value.",
  ["query-algebrizer/src/clauses/tx_log_api.rs", "db/src/db.rs"],
  [("tx-ids / tx-data clauses", "query-algebrizer/src/clauses/tx_log_api.rs"), ("transactions view", "db/src/db.rs V1_STATEMENTS")],
  ["q_once with tx-ids and tx-data"])

p("C19", "Fulltext search finds exactly the current matching values",
  "A fulltext search for a term on a fulltext attribute returns exactly the entities and values currently asserted for that attribute that contain the term, after any history of assertions, replacements and retractions (shared strings included), and values of fulltext attributes read back, compare and resolve as lookup references exactly like ordinary strings.",
  ["histories", "inputs"], "every history of assertions and retractions of a few strings on two fulltext attributes up to a depth x every search term and variable binding form",
  "Tests search one fixed data set.",
  ["query-algebrizer/src/clauses/fulltext.rs", "db/src/db.rs", "query-sql/src/lib.rs"],
  [("fulltext_values indirection", "db/src/db.rs insert_fts_searches, fulltext_datoms"), ("fulltext clause", "query-algebrizer/src/clauses/fulltext.rs")],
  ["q_once with (fulltext ...)", "ordinary pattern queries on fulltext attributes"])

p("C20", "Ensuring a vocabulary installs or upgrades it once and reports truthfully",
  "Ensuring a vocabulary definition leaves the store with exactly that definition (all its attributes with the stated properties, at its version), reports truthfully whether it was installed, completed, upgraded or already there, changes nothing when it was already there, and refuses a definition that is older than or conflicts with the stored one without changing anything; what is read back equals what was installed, also after reopening.",
  ["histories", "configurations"], "every sequence of ensure operations over a set of definitions (versions, subsets and alterations of attributes) up to a depth, with reopening",
  "Tests run a few fixed install and upgrade paths.",
  ["src/vocabulary.rs"],
  [("check and ensure", "src/vocabulary.rs VersionedStore"), ("description diff", "src/vocabulary.rs Definition::description_for_attributes")],
  ["VocabularyOutcome, read_vocabularies, schema, log"])

p("C21", "EDN text round-trips, and every text is either parsed to its meaning or refused",
  "Printing any EDN value (compactly or pretty-printed) and parsing it again gives an equal value; every text is either parsed to the value the notation denotes or refused with an error, never a panic; whitespace, commas and comments between elements never change the result; and the values ordered and compared in EDN behave as a total order consistent with equality.",
  ["inputs"], "every value up to a size over an alphabet of atoms of every type and their edge cases, and every short text over an alphabet of significant characters",
  "Tests parse and print examples of each form; they do not enumerate edge values, nesting or short malformed texts.",
  ["edn/src/lib.rs", "edn/src/types.rs", "edn/src/pretty_print.rs", "edn/src/symbols.rs", "edn/src/namespaceable_name.rs", "edn/src/matcher.rs", "edn/src/utils.rs"],
  [("parser", "edn/src/lib.rs peg grammar"), ("printers", "edn/src/types.rs Display, edn/src/pretty_print.rs")],
  ["edn::parse::value", "Display/to_pretty"])

p("C22", "Every value that is stored is read back unchanged, everywhere",
  "Every value of every type that a transaction accepts is returned unchanged, with the same type, by queries, lookups, pull, caches, the log, lookup references and query inputs, before and after reopening the store; values that cannot be represented are refused when they are written, and never make other data unreadable.",
  ["inputs"], "every value of an edge-case domain per type x every write path (text, builder, typed inputs) x every read path",
  "Tests store a few ordinary values of each type.",
  ["db/src/db.rs", "core-traits/lib.rs", "core/src/sql_types.rs", "edn/src/lib.rs", "sql/src/lib.rs", "db/src/schema.rs"],
  [("value encoding", "db/src/db.rs TypedSQLValue"), ("SQL quoting and binding", "sql/src/lib.rs"), ("EDN literals", "edn/src/lib.rs")],
  ["all read paths"])

p("C23", "Binding a query input equals writing the value into the query",
  "A query run with inputs gives the same answers as the query with the bound values written in place of the variables, whether run once, prepared and run repeatedly, or explained; inputs that contradict the types the query requires give no answers or an error, and a prepared query run after the data changed answers from the data at the time it runs.",
  ["programs", "inputs", "histories"], "every query shape with an input variable in each position x every value of a domain x prepared/once x changes between runs",
  "Tests bind a few inputs in fixed queries.",
  ["query-algebrizer/src/types.rs", "query-algebrizer/src/lib.rs", "transaction/src/query.rs", "src/query_builder.rs", "query-algebrizer/src/clauses/inputs.rs"],
  [("input binding", "query-algebrizer/src/clauses/inputs.rs, lib.rs algebrize_with_inputs"), ("prepared queries", "transaction/src/query.rs PreparedQuery"), ("query builder", "src/query_builder.rs")],
  ["q_once / q_prepare / QueryBuilder results"])

p("C24", "Every request is answered or refused, and the store works on",
  "Whatever a client asks - any query that parses, with any inputs, any transaction, pull, lookup, caching or savepoint request - ends in an answer or an error, never a panic; asking once and preparing the query and running it agree on which; and afterwards the store answers as before, a refused or abandoned transaction leaves no trace, and new transactions are possible.",
  ["inputs", "programs"], "every pattern, function call, clause and nesting of clauses, find specification, input, transaction term, pull, lookup, cache and savepoint request over alphabets of what can syntactically be there",
  "Tests make well-formed requests and a few malformed ones; they do not combine everything the grammars admit in every place.",
  ["query-algebrizer/src/clauses/pattern.rs", "query-algebrizer/src/clauses/convert.rs", "query-algebrizer/src/clauses/ground.rs", "query-algebrizer/src/clauses/tx_log_api.rs", "query-algebrizer/src/validate.rs", "query-projector/src/lib.rs", "db/src/tx.rs", "db/src/internal_types.rs", "db/src/cache.rs", "query-pull/src/lib.rs", "transaction/src/lib.rs"],
  [("algebrizer", "query-algebrizer/src/lib.rs algebrize_with_inputs"), ("transactor", "db/src/tx.rs"), ("in-progress transactions", "transaction/src/lib.rs InProgress")],
  ["q_once / q_explain / q_prepare", "InProgress::transact, savepoint", "pull, lookup, cache"])

p("C25", "The C interface gives what the library gives",
  "A program that uses a store through the C interface (ffi/) observes what a Rust program would: asserting, retracting and committing through a builder writes the same datoms and reports the same tempids and entids as the transaction they spell; a query built, bound and run in any of its forms yields the library's rows, values and types in order, through every accessor and iterator, with null past the end; lookups of one and several values agree; observers get the same changes while registered; an error comes back as a message and leaves the store working; and everything handed out can be released exactly once, without leaving memory behind.",
  ["programs", "inputs"], "every call sequence of builders up to a length, every value type and extreme, every query form with every binding, every accessor and index, every lookup, registration, transaction and release sequence, over several contents",
  "Two tests call a handful of the functions on one value each; a C caller has no types to prevent mismatches, so every combination of the handles counts.",
  ["ffi/src/lib.rs", "ffi/src/utils.rs", "src/entity_builder.rs", "src/query_builder.rs"],
  [("the exported functions", "ffi/src/lib.rs"), ("errors and strings", "ffi/src/utils.rs"), ("query builder", "src/query_builder.rs QueryBuilder")],
  ["results, tuples, typed values and their accessors", "TxReport", "observer callbacks", "ExternError", "live allocations"])

p("C26", "The command line does what is typed",
  "The mentat_cli REPL carries out exactly the command a line spells: every documented command in all its spellings, with its arguments, across continued lines, and nothing for a text that spells none (an error is printed and the session goes on). What a session prints for queries of every form, transactions, imports, schema, caching, timing, opening and closing, and the database files it leaves, are what the same steps give through the library, and the startup options do what the same commands typed in that order would; it ends, with status 0, only when told to or at the end of its input.",
  ["programs", "inputs"], "every line over an alphabet of commands, near-commands, separators and arguments; every session of lines up to a length; every sequence of startup options",
  "The parser's tests try one spelling of each command; nothing tests the program: what it prints, keeps open, carries over between lines or does on startup.",
  ["tools/cli/src/mentat_cli/command_parser.rs", "tools/cli/src/mentat_cli/repl.rs", "tools/cli/src/mentat_cli/input.rs", "tools/cli/src/mentat_cli/lib.rs"],
  [("reading commands", "tools/cli/src/mentat_cli/command_parser.rs command"), ("the session", "tools/cli/src/mentat_cli/repl.rs Repl"), ("startup options", "tools/cli/src/mentat_cli/lib.rs run")],
  ["Command", "output", "exit status", "database files"])

p("C27", "Syncing over HTTP is syncing, and failed requests are not taken for done",
  "Store::sync against a server speaking the protocol over HTTP has the results syncing with the log it keeps has (C17), however the server spells its answers (lengths, chunks, escapes, additional fields); and whenever a request fails - the connection is closed before or after the request took effect, the answer is cut off, has another status, or isn't what was asked for - the sync fails with an error instead of a panic, the store is as it was before, the server's head still refers only to complete transactions, and repeating the sync gives what it should have given.",
  ["histories", "crash/fault points"], "every sequence of transactions and syncs up to a depth; every request of a sync with every failure",
  "No test makes a request: the remote client's only test is about a URL.",
  ["tolstoy/src/remote_client.rs", "src/sync.rs", "tolstoy/src/syncer.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/types.rs"],
  [("requests", "tolstoy/src/remote_client.rs RemoteClient"), ("the transaction around a sync", "src/sync.rs Syncable"), ("order of uploads", "tolstoy/src/tx_uploader.rs")],
  ["SyncReport", "errors", "the store's dump", "the server's content"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
