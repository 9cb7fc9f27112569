#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TX = ["db/src/tx.rs", "db/src/db.rs", "db/src/upsert_resolution.rs", "db/src/internal_types.rs", "transaction/src/lib.rs"]
p("P01", "A transaction changes the store exactly as its assertions and retractions say",
  "For every history of transactions over any schema, the current set of facts after each accepted transaction is the previous set plus the asserted facts minus the retracted ones: a cardinality-one assertion replaces the previous value, a cardinality-many one adds, asserting a present fact or retracting an absent one changes nothing, and retracting removes only the exact fact named. No other fact appears, disappears or changes value, type or transaction, and a transaction is accepted or rejected exactly when the documented rules say so.",
  ["histories", "inputs"], "every sequence of transactions (adds, retracts, upserts, nested maps, lookup refs, tempids, schema changes) over every schema",
  "db/src/lib.rs tests run a few dozen fixed transactions; interaction of re-assertion, replacement, retraction and upsert inside one transaction depends on combinations no fixed list covers.",
  TX, [("Tx::transact_entities pipeline", "db/src/tx.rs"), ("search and insert SQL", "db/src/db.rs MentatStoring")],
  state=[("datoms", "current facts", "db/src/db.rs")], observe=["Store::transact", "Store::q_once", "the datoms table"])
p("P02", "The transaction log replays to the current facts and is append-only",
  "At every moment the log, read in transaction order, contains for each accepted transaction exactly the facts it really added and really removed, and folding the log from empty gives exactly the current facts with the transaction that last asserted each. Existing log entries never change, transaction ids strictly increase, and every transaction has exactly one :db/txInstant assertion on its own id.",
  ["histories"], "every history of accepted, rejected and rolled back transactions, including schema alterations and excisions of nothing",
  "Existing tests compare the log for short fixed histories; log/fact agreement is a whole-history invariant.",
  ["db/src/db.rs", "db/src/tx.rs", "tolstoy/src/tx_processor.rs", "db/src/debug.rs"],
  [("insert_transaction then update_datoms from the same search results", "db/src/db.rs MentatStoring::commit_mentat_transaction")],
  state=[("timelined_transactions", "append-only log", "db/src/db.rs")], observe=["the transactions view", "tx-data queries", "tolstoy Processor"])
p("P03", "A failed or abandoned transaction leaves no trace",
  "When a transact call returns an error, or an in-progress transaction is dropped or rolled back (entirely or to a savepoint), then facts, log, schema, idents, caches, full-text values and the next entity ids seen by every later operation are the same as if the abandoned work had never been attempted.",
  ["histories", "fault_sequences"], "every history in which any subset of transactions fails (bad type, unknown ident, conflict, bad schema change, SQL failure at any statement) or is abandoned at any point",
  "Tests check that an error is returned, rarely that everything observable is unchanged afterwards, and never combine failure with caches, schema changes and later work.",
  ["transaction/src/lib.rs", "db/src/tx.rs", "db/src/db.rs", "src/conn.rs"],
  [("SQLite transaction dropped on error; metadata swapped only on commit", "transaction/src/lib.rs InProgress")],
  observe=["Store::begin_transaction", "InProgress::rollback / drop / rollback_savepoint"])
p("P04", "Committed data, schema and ids survive closing, reopening and crashing",
  "Reopening a store file after a clean close, or a copy of its files taken at any moment as a crash would leave them, yields exactly the facts, log, schema, idents, full-text index and id allocation state of the last completed commit, and work continued on the reopened store behaves as it would have without the interruption.",
  ["crash_points", "histories"], "every history and every point at which the process stops or the files are copied",
  "Only a few tests reopen a file, each after a fixed short history; none continue work after reopening and compare with an uninterrupted run.",
  ["db/src/db.rs", "src/store.rs", "src/conn.rs"],
  [("ensure_current_version / read_db", "db/src/db.rs"), ("WAL, SQLite transaction per InProgress", "db/src/db.rs make_connection")],
  observe=["Store::open on an existing path"])
p("P05", "New entity ids are fresh, per-partition, and tempids resolve consistently",
  "Every tempid in an accepted transaction is reported with exactly one entity id; all uses of the same tempid get the same id; a tempid that does not upsert gets an id of the user partition never used or handed out in committed history before, distinct from every other new tempid's. Transaction ids come from the transaction partition, never collide with other entities, and an id that has never been allocated is rejected in entity position.",
  ["histories"], "every mix of transactions, reopenings, rollbacks and tempid/upsert patterns",
  "Allocation state is cumulative over history; tests only look at the first few allocations.",
  ["db/src/db.rs", "db/src/types.rs", "db/src/tx.rs", "db/src/upsert_resolution.rs"],
  [("PartitionMap::allocate_entids", "db/src/db.rs"), ("allocation of unresolved tempids", "db/src/upsert_resolution.rs")],
  observe=["TxReport.tempids", "TxReport.tx_id", "InProgress::last_tx_id"])
p("P06", "Schema constraints hold in every reachable state",
  "In every reachable state: no two entities share a value of a unique attribute, a cardinality-one attribute has at most one value per entity, every value has its attribute's declared type, every ident names exactly one entity, and no fact is stored twice. A transaction that would break one of these is rejected as a whole.",
  ["histories"], "every history of transactions and schema alterations",
  "These are state invariants over all histories; tests check single attempted violations.",
  TX + ["db/src/metadata.rs", "db/src/schema.rs"],
  [("cardinality/type conflict detection", "db/src/tx_checking.rs"), ("unique indexes", "db/src/db.rs")],
  observe=["the datoms table", "Store::q_once"])
p("P07", "The outcome of a transaction does not depend on order or tempid names",
  "Permuting the entities of a transaction, renaming its tempids, or writing the same entity in one map or several additions gives the same accept/reject outcome and the same resulting facts up to the numbering of newly created entities. In particular upserts resolve to existing entities by unique-identity attributes, including through chains of tempids, whatever order they are written in.",
  ["inputs"], "every transaction over every store state, every permutation and every injective tempid renaming",
  "Upsert tests fix one order and one naming; permutations are never explored.",
  ["db/src/upsert_resolution.rs", "db/src/tx.rs"],
  [("generations of upsert evolution", "db/src/upsert_resolution.rs Generation::evolve_one_step")],
  observe=["TxReport", "facts after transact"])
p("P08", "All ways of writing the same assertion are equivalent",
  "Map notation, nested maps, vectors of values, reverse attributes (:a/_b), lookup refs, idents versus entity ids, (transaction-tx), EDN text, and the programmatic builders (transact_entities, TermBuilder, entity builder) produce the same facts as the corresponding plain [:db/add e a v] / [:db/retract e a v] list.",
  ["inputs"], "every transaction and every rewriting of it between notations",
  "Each notation is tested alone on an example; equivalence for arbitrary nestings is not.",
  ["db/src/tx.rs", "db/src/internal_types.rs", "edn/src/entities.rs", "edn/src/lib.rs", "transaction/src/entity_builder.rs"],
  [("entities_into_terms_with_temp_ids_and_lookup_refs", "db/src/tx.rs"), ("TermBuilder", "transaction/src/entity_builder.rs")],
  observe=["Store::transact", "InProgress::transact_terms / transact_builder"])
p("P09", "The schema in memory is the schema in the store, through every alteration",
  "After every accepted transaction the schema used by the running store equals the schema derived from the stored facts and the schema seen after reopening; attribute definitions and permitted alterations (cardinality, uniqueness, index, component, ident renames and retractions) take effect as documented and invalid ones are rejected without effect.",
  ["histories"], "every sequence of attribute installations, alterations, renames and retractions, interleaved with data",
  "Schema tests install or alter one attribute once and do not compare memory with reopened state.",
  ["db/src/metadata.rs", "db/src/schema.rs", "db/src/db.rs", "core/src/lib.rs"],
  [("update_schema_from_entid_quadruples", "db/src/metadata.rs"), ("update_metadata", "db/src/db.rs"), ("AttributeBuilder", "db/src/schema.rs")],
  observe=["Conn::current_schema", "Store::open"])
p("P10", "A query returns exactly the rows Datalog semantics prescribes",
  "For every store and every well-formed query (patterns joined by variables, constants, idents and lookups; or / or-join / not / not-join; predicates; ground; type constraints; inputs), the result contains exactly the distinct bindings for which the where clauses hold over the current facts, no more and no fewer, with correctly typed values.",
  ["inputs", "programs"], "every query over every data set and schema",
  "Translator tests compare SQL text for fixed queries and a few executed examples; clause interaction (or inside not, type narrowing, shared variables) is combinatorial.",
  ["query-algebrizer/src/lib.rs", "query-algebrizer/src/clauses/mod.rs", "query-algebrizer/src/clauses/pattern.rs", "query-algebrizer/src/clauses/or.rs", "query-algebrizer/src/clauses/not.rs", "query-projector/src/translate.rs", "query-sql/src/lib.rs"],
  [("algebrize to conjoining clauses, translate to SQL", "query-algebrizer/src/lib.rs, query-projector/src/translate.rs")],
  observe=["Store::q_once", "InProgress::q_once"])
p("P11", "Find specs, order, limit and aggregates shape results as defined",
  "Relation, tuple, collection and scalar find specs return the same bindings in the stated shape; :order sorts by the named variables in the stated directions; :limit returns a prefix of that order of at most that size; count, min, max, sum, avg and (the ?x) are computed over the distinct bindings of the find and :with variables, grouped by the plain find variables.",
  ["inputs", "programs"], "every query, find spec, order, limit, aggregate and :with list over every data set",
  "Aggregate tests are a handful of fixed data sets.",
  ["query-projector/src/lib.rs", "query-projector/src/project.rs", "query-projector/src/translate.rs", "query-projector-traits/src/aggregates.rs", "query-sql/src/lib.rs"],
  [("projected elements, aggregate subselect, ORDER BY / LIMIT", "query-projector/src/project.rs, translate.rs")],
  observe=["QueryOutput"])
p("P12", "Attribute caching never changes any answer",
  "Whatever attributes are cached (forward, reverse or both, with registration, use and deregistration at any time, inside or outside a transaction, with or without commit), every query, lookup and pull returns exactly what it would return with no cache, both inside the open transaction and after commit or rollback.",
  ["histories", "configurations"], "every history of transactions interleaved with cache registrations and reads, every choice of cached attributes",
  "Cache tests check a few transactions on one or two attributes; staleness depends on the order of updates, retractions, rollbacks and registrations.",
  ["db/src/cache.rs", "src/conn.rs", "transaction/src/lib.rs", "query-algebrizer/src/clauses/pattern.rs"],
  [("SQLiteAttributeCache overlay, transact watcher, commit_to", "db/src/cache.rs")],
  state=[("attribute caches", "value/entity maps kept in step with facts", "db/src/cache.rs")],
  observe=["Store::cache", "InProgress::cache", "q_once", "lookup_value_for_attribute"])
p("P13", "Equivalent ways of posing a query give equal answers",
  "Running a query once, preparing it and running it many times, binding inputs versus writing the constants inline or through ground, renaming variables, reordering independent clauses, and running it through a Store, a Conn, an in-progress transaction or an uncached path give equal results on the same data; a prepared query reflects data committed since it was prepared.",
  ["inputs", "programs", "histories"], "every query, input binding and rewriting, on every store",
  "Each entry point is tested separately with its own examples.",
  ["src/query.rs", "transaction/src/query.rs", "src/conn.rs", "query-algebrizer/src/clauses/inputs.rs", "query-algebrizer/src/clauses/ground.rs"],
  [("q_once / q_prepare / PreparedQuery::run", "transaction/src/query.rs"), ("QueryInputs", "query-algebrizer/src/clauses/inputs.rs")],
  observe=["Queryable", "PreparedQuery"])
p("P14", "Pull returns exactly the stated attributes of the stated entities",
  "Pulling attributes (or *) for entities, directly or inside a query, returns for each entity exactly the current values of those attributes: all values of cardinality-many attributes, one for cardinality-one, aliases applied, :db/id when requested, and nothing for attributes or entities without values.",
  ["inputs", "histories"], "every pull pattern, entity set and data set",
  "tests/pull.rs covers one fixture data set with a handful of patterns.",
  ["query-pull/src/lib.rs", "src/conn.rs", "query-projector/src/pull.rs", "db/src/cache.rs"],
  [("Puller over an attribute cache built for the entities", "query-pull/src/lib.rs")],
  observe=["pull_attributes_for_entities / pull_attributes_for_entity", "(pull ?e [...]) in find"])
p("P15", "Full-text search agrees with the current string values",
  "A fulltext clause on an indexed attribute returns exactly the current (entity, value, transaction) facts whose text contains the searched tokens, and plain patterns on that attribute see the same strings; repeated, shared, retracted and re-asserted strings never yield stale, missing or duplicate results.",
  ["histories", "inputs"], "every history of string assertions and retractions on fulltext attributes and every token search",
  "Two or three tests with fixed strings; sharing and re-assertion of equal strings across entities and transactions is not explored.",
  ["db/src/db.rs", "query-algebrizer/src/clauses/fulltext.rs"],
  [("insert_fts_searches, fulltext_values / fulltext_datoms", "db/src/db.rs"), ("apply_fulltext", "query-algebrizer/src/clauses/fulltext.rs")],
  observe=["(fulltext $ :attr \"term\") clauses"])
p("P16", "Values read back equal to values written, for every value of every type",
  "Every storable value of every type (boolean, long over the whole 64-bit range, double, string, keyword, instant, UUID, ref) transacted into the store is returned with the same type and value by query, lookup, pull and the log, matches itself as a constant or input in a query, and matches no different value.",
  ["inputs"], "every value of every value type, including extremes, empty and non-ASCII strings",
  "Tests store a few ordinary values per type.",
  ["db/src/db.rs", "core-traits/lib.rs", "query-projector-traits/src/lib.rs", "sql/src/lib.rs", "query-sql/src/lib.rs"],
  [("TypedSQLValue from/to SQL", "db/src/db.rs"), ("TypedValue literals in SQL", "sql/src/lib.rs, query-sql/src/lib.rs")],
  observe=["Store::transact", "q_once", "lookup_value_for_attribute"])
p("P17", "Printing and parsing EDN are inverse",
  "For every EDN value, printing it and parsing the text gives back an equal value, compact and pretty printing agree, whitespace and comments between tokens never matter, and value ordering is a total order consistent with equality.",
  ["inputs"], "every EDN value of every kind and nesting, every layout of the same tokens",
  "edn/tests list examples; nesting, escapes, boundary numbers and namespaced names combine freely.",
  ["edn/src/lib.rs", "edn/src/types.rs", "edn/src/pretty_print.rs", "edn/src/symbols.rs", "edn/src/namespaceable_name.rs"],
  [("Display for Value, pretty printer", "edn/src/types.rs, edn/src/pretty_print.rs"), ("PEG grammar", "edn/src/lib.rs")],
  observe=["edn::parse::value", "Value::to_string", "Value::to_pretty"])
p("P18", "Parsers accept or reject every input text without crashing",
  "For every input text the EDN value, entity (transaction) and query parsers return a result or an error and never panic, hang or overflow the stack on bounded nesting; text accepted as a transaction or query means what its EDN form says, and out-of-range literals are rejected or preserved, never altered.",
  ["inputs"], "every string up to a bounded length, especially mutations of valid documents",
  "Parser tests feed valid examples and a few malformed ones.",
  ["edn/src/lib.rs", "edn/src/entities.rs", "edn/src/query.rs", "query-algebrizer/src/lib.rs"],
  [("PEG grammar actions", "edn/src/lib.rs"), ("parse_query / parse_find_string", "edn/src/lib.rs, query-algebrizer/src/lib.rs")],
  observe=["edn::parse::value", "edn::parse::entities", "edn::parse::parse_query"])
p("P19", "Observers see every committed change to their attributes, and only those",
  "A registered observer is told exactly once per commit about each committed transaction that added or retracted a fact of one of its attributes, with the right transaction id and the attributes that transaction wrote (all that changed, and none the transaction does not mention), in commit order; it hears nothing about failed, rolled back or unrelated transactions, nor after being unregistered.",
  ["histories"], "every history of transactions, observers, registrations and unregistrations",
  "Tests register one observer and run a few fixed transactions.",
  ["db/src/tx_observer.rs", "src/conn.rs", "transaction/src/lib.rs", "db/src/watcher.rs"],
  [("InProgressObserverTransactWatcher, TxObservationService", "db/src/tx_observer.rs")],
  observe=["Store::register_observer", "TxObserver callback"])
p("P20", "Moving transactions off the main timeline restores the earlier state",
  "Moving the most recent transactions from the main timeline to another one restores exactly the facts, schema, idents and entity-id allocation inputs of the moment before them, removes them from the log of the main timeline and keeps them intact on the other; requests that do not name the tail of the main timeline or a fresh target, or that would undo what the schema rules do not let be undone, are rejected unchanged.",
  ["histories"], "every history (including schema changes, renames and replaced values) and every suffix of it",
  "db/src/timelines.rs tests cover a few two- or three-transaction histories.",
  ["db/src/timelines.rs", "db/src/tx.rs", "db/src/db.rs"],
  [("move_from_main_timeline: reverse datoms, transact them, move log rows", "db/src/timelines.rs")],
  observe=["mentat_db::timelines::move_from_main_timeline"])
p("P21", "Synchronising stores converges without losing or inventing facts",
  "Whenever stores synchronise through a shared remote log, with any interleaving of local work and syncs, a store that has synced with nothing left to do holds the facts of the remote history and its own merged work: no committed fact is lost, duplicated or re-attributed beyond the documented merge rules, entities are identified up to renumbering, and an immediate second sync does nothing.",
  ["histories", "schedules"], "every interleaving of local transactions and syncs of several stores against one remote",
  "tests/tolstoy.rs covers about twenty fixed two- or three-store scenarios.",
  ["tolstoy/src/syncer.rs", "tolstoy/src/tx_mapper.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/metadata.rs", "src/sync.rs"],
  [("Syncer::sync: fast-forward, upload, bootstrap merge, rebase", "tolstoy/src/syncer.rs")],
  state=[("tolstoy_tu, tolstoy_metadata", "tx UUID mapping, remote head, partitions", "tolstoy/src/schema.rs")],
  observe=["Syncer::sync with a GlobalTransactionLog"])
p("P22", "Ensuring a vocabulary is idempotent, versioned and complete",
  "Ensuring a vocabulary makes every declared attribute exist exactly as declared at the declared version, is a no-op when already present, upgrades only from lower versions running the pre and post steps, and refuses a conflicting or newer present vocabulary without changing the store; checking reports the true relation and reading vocabularies back gives what was installed.",
  ["histories", "configurations"], "every sequence of vocabulary definitions, versions and ensures over any existing schema",
  "Vocabulary tests use one or two fixed vocabularies.",
  ["src/vocabulary.rs", "core/src/lib.rs", "transaction/src/lib.rs"],
  [("VersionedStore::ensure_vocabulary, VocabularyCheck", "src/vocabulary.rs")],
  observe=["InProgress::ensure_vocabulary", "read_vocabularies", "check_vocabulary"])
p("P23", "Queries over the log return exactly the recorded history slice",
  "(tx-ids $ a b) yields exactly the recorded transactions t with a <= t < b (transaction ids), (tx-data $ tx) exactly the assertions and retractions of that transaction with their added flags, and joins of these with ordinary clauses equal the same join over the recorded log.",
  ["inputs", "histories"], "every history, id range, and combination of log clauses with patterns",
  "A couple of tests with fixed ids.",
  ["query-algebrizer/src/clauses/tx_log_api.rs", "query-projector/src/translate.rs", "db/src/db.rs"],
  [("apply_tx_ids / apply_tx_data", "query-algebrizer/src/clauses/tx_log_api.rs")],
  observe=["tx-ids / tx-data clauses"])
p("P24", "Readers and other connections see only complete, committed states",
  "A read transaction keeps seeing the one committed state it started from whatever is committed meanwhile through another connection; no connection ever observes part of another's transaction; a write based on outdated state or attempted while another write is open is rejected with an error rather than overwriting or mixing, after which both stores remain intact.",
  ["schedules", "histories"], "every interleaving of reads, writes, commits and rollbacks over several connections to one file",
  "Tests use one connection almost everywhere.",
  ["src/conn.rs", "src/store.rs", "transaction/src/lib.rs", "db/src/db.rs"],
  [("Conn metadata mutex + generation; deferred/immediate SQLite transactions", "src/conn.rs, transaction/src/lib.rs")],
  observe=["Conn::begin_read", "Conn::begin_transaction", "a second Store on the same path"])
p("P25", "The command line parses every command to exactly what was typed",
  "Every CLI line is either parsed to the one command it names with its arguments intact (paths, transactions, queries and attributes byte for byte), or rejected with an error, and never crashes; aliases and surrounding whitespace do not matter.",
  ["inputs"], "every input line",
  "Examples per command only.",
  ["tools/cli/src/mentat_cli/command_parser.rs"], [("combine parser", "tools/cli/src/mentat_cli/command_parser.rs")],
  observe=["mentat_cli::command_parser::command"])
p("P26", "Batching transactions does not change their effect",
  "Running a list of transactions inside one in-progress transaction (with queries, savepoints and released savepoints in between) or committing each separately gives the same facts, log contents, schema, allocation and reports, and reads inside the open transaction see exactly the effects so far.",
  ["histories"], "every list of transactions and every split of it into commits and savepoints",
  "Tests use one split.",
  ["transaction/src/lib.rs", "src/conn.rs", "db/src/tx.rs"],
  [("InProgress::transact_terms, savepoint", "transaction/src/lib.rs")],
  observe=["Store::begin_transaction", "InProgress::commit"])
p("P27", "The query builder and typed result accessors agree with raw query results",
  "Building and executing a query through the query builder with bound inputs and the scalar, tuple, coll and rel accessors gives the same values as executing the text directly, typed conversions return the value exactly when the type matches and an error otherwise, and result iteration and indexing return each row once in order.",
  ["inputs"], "every query, input binding, result shape and conversion",
  "src/query_builder.rs tests check one conversion per type.",
  ["src/query_builder.rs", "query-projector/src/binding_tuple.rs", "query-projector-traits/src/lib.rs", "core-traits/lib.rs"],
  [("QueryBuilder", "src/query_builder.rs"), ("RelResult / BindingTuple", "query-projector/src/relresult.rs")],
  observe=["QueryBuilder", "QueryOutput conversions", "RelResult"])
p("P28", "Ill-formed queries are rejected cleanly and never disturb the store",
  "Every syntactically valid query, however ill-formed semantically (unknown attributes, unbound or misused variables, type clashes, wrong arities, malformed rules of inputs, limits and orders), yields an answer or an error, never a panic, and neither running nor explaining nor preparing it changes the store or prevents later queries.",
  ["inputs", "programs"], "every query text that parses, over every schema",
  "Error tests enumerate one instance per error kind.",
  ["query-algebrizer/src/lib.rs", "query-algebrizer/src/validate.rs", "query-algebrizer/src/clauses/mod.rs", "query-projector/src/project.rs", "transaction/src/query.rs"],
  [("validation in algebrize_with_inputs", "query-algebrizer/src/lib.rs")],
  observe=["Store::q_once / q_explain / q_prepare"])
p("P29", "Results do not depend on transaction or query size",
  "Transactions with any number of assertions, distinct strings, lookup refs, upserts or fulltext values, and pulls and caches over any number of entities, behave as the corresponding small operations applied piecewise: no size threshold changes the outcome or fails.",
  ["inputs"], "transactions from one to tens of thousands of facts, around every internal batching boundary",
  "Existing tests never exceed a few dozen assertions, so the chunking code runs with one chunk.",
  ["db/src/db.rs", "db/src/cache.rs", "sql/src/lib.rs"],
  [("chunked inserts against SQLITE_MAX_VARIABLE_NUMBER", "db/src/db.rs insert_non_fts_searches / insert_fts_searches / resolve_avs")],
  observe=["Store::transact"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
