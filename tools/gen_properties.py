#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DOC = "pkg/document/document.go"
INS = "pkg/hnsw/insert.go"
p("C01", "An acknowledged add is durable",
  "When adding documents is reported successful, every document of the request has been stored, and after the last of them the collection's changed vectors, its entry point and its document count have been persisted, and after that the pod's feeds have been committed. No path reports success after skipping one of these steps, doing it too early, or seeing it fail.",
  ["inputs", "fault_sequences", "crash_points"],
  "every batch of documents, every storage step that may fail, every crash after the acknowledgement",
  "The only test of adding documents needs a live vectorizer and never injects a storage fault or restarts the server.",
  [DOC, INS], ["AddDocuments: document put, index flush, pod feed commit", "Flush: vertices, entry point, count, commit log"],
  [("persisted count", "next id to hand out"), ("persisted entry point", "where searches start")])
p("C02", "A failed step is never reported as success",
  "If any storage call, vectorizer call, vector-index operation or encoding step fails while a request to create, delete or list collections, add documents, search or fetch a document is carried out, the caller gets an error and no success. Only the failures an operation is meant to tolerate (already present, already open, nothing stored yet) may be absorbed.",
  ["fault_sequences", "inputs"],
  "every call that can fail, on every path of every operation",
  "Tests run against a mock store that never fails; each error branch would need its own fault.",
  [DOC, INS, "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/heuristic.go", "adapters/handlers/documents.go", "adapters/handlers/collections.go", "pkg/vectorizer/rest/vectorizer.go"],
  ["error results of the storage API, the key-value store, the vectorizer, encoding/json and the index are returned or wrapped"])
p("C03", "A document and its vector share one id nobody else has",
  "In a collection, the id stored with an indexed document is the id its vector is indexed and cached under, no two documents get the same id whatever the interleaving of concurrent adds or partial failures, and the persisted counter covers every id handed out. Search turns exactly the ids the index returned into documents.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of add requests, every batch that fails half way, every later search",
  "No test adds concurrently, lets a batch fail half way or compares stored ids with indexed ids.",
  [DOC, INS], ["id counter in AddDocuments", "hnswId property", "vector cache key", "Flush(count)", "DocFind by id"])
p("C04", "Collections are isolated from each other and from other data",
  "Every storage and index access of a request names exactly the collection given in that request under the reserved prefix, in the session's pod. Listing shows only entries under the prefix and strips exactly the prefix.",
  ["inputs", "histories"],
  "every collection name, every operation, every mix of collections and foreign document databases in the pod",
  "Tests use one collection per pod and never foreign databases.",
  [DOC, INS, "pkg/hnsw/index.go", "pkg/hnsw/delete.go"], ["namespace prefix", "className of the index", "indices map key"])
p("C05", "Search results respect limit and distance, nearest first",
  "A nearest-documents search returns no more documents than a non-zero limit, none farther than the requested distance, in order of increasing distance, and every document is paired with its own distance in the answer.",
  ["inputs", "histories", "schedules"],
  "every query, limit, distance, collection content and completion order of the concurrent lookups",
  "The search tests need a live vectorizer; ordering, truncation and pairing are never checked.",
  ["pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/search.go", "pkg/hnsw/flat_search.go", DOC, "adapters/handlers/documents.go"],
  ["result extraction from the max-heap", "distance cut-off", "limit truncation", "index-aligned fan-out"])
p("C06", "No request or stored or remote value makes the server panic",
  "No request body, property value, limit, vector, vectorizer answer or failure of the store makes the code that serves requests (handlers, document client, vectorizer client) panic: null or missing parts, wrong types, empty lists and out-of-range numbers are answered, not crashed on. A node the index looks up and does not find is handled, and what a request makes the index do does not panic or end the process on purpose.",
  ["inputs", "histories", "fault_sequences"],
  "every syntactically valid request and every answer or failure of the vectorizer and the store; stored documents are JSON objects",
  "Tests only send well-formed requests.",
  ["adapters/handlers/documents.go", "adapters/handlers/collections.go", DOC, "pkg/vectorizer/rest/vectorizer.go", "pkg/vectorizer/vector.go", "pkg/hnsw/flat_search.go", "pkg/hnsw/search.go", "pkg/hnsw/neighbor_connections.go"],
  ["type assertions, nil dereferences, nil-map writes, slice and index expressions in request-serving code", "uses of looked-up nodes in the index"])
p("C07", "Every lock is released on every path and never taken twice",
  "Whatever path an operation takes, including every error return, it ends holding no lock it acquired, never releases a lock it does not hold, and never waits for a lock it already holds; locks are always nested in one global order.",
  ["schedules", "fault_sequences", "inputs"],
  "every path through every function that locks, every interleaving of operations",
  "A leaked lock only shows as a hang of a later operation after a fault; no test injects one or runs operations concurrently.",
  ["pkg/hnsw/*.go", DOC], ["sync.Mutex / sync.RWMutex acquire and release"])
p("C08", "Shared state is only touched under its lock",
  "Every piece of mutable state shared between concurrent requests or background work (entry point, tombstones, cached vectors, links, the set of open collections, the session, the commit log) is read and written only while holding its lock, in write mode for writes, or through atomic operations.",
  ["schedules"],
  "every interleaving of requests and background maintenance",
  "Tests are single-threaded and not run under the race detector.",
  ["pkg/hnsw/*.go", DOC], ["guarded-by relation between fields and mutexes", "sync/atomic counters"])
p("C09", "Concurrent lookups are joined before their results are used",
  "Work that a request fans out to goroutines has finished before the request uses or returns what they produce, each worker writes only its own slot or under a lock, and a failing worker's error reaches the caller.",
  ["schedules", "fault_sequences"],
  "every completion order of the workers, any of them failing",
  "Completion order and worker failures are not controlled by any test.",
  [DOC, "pkg/hnsw/search.go", "pkg/hnsw/vector_cache.go", "pkg/hnsw/compressed_vector_cache.go", "pkg/hnsw/commit_logger.go"],
  ["sync.WaitGroup, error channels"])
p("C10", "The REST interface does what its specification says",
  "Each documented operation is reachable at its documented method and path and runs its own handler; a handler answers success exactly when the operation succeeded, and every error is answered with a non-2xx status documented for that operation. The parts a request needs (collection name, indexes, documents, properties to vectorize, search text or vector) are checked before anything is done, the operation is given the values of the request, and every document of a request and every result of an operation is passed on.",
  ["inputs", "configurations"],
  "every documented operation and every outcome of the operation behind it",
  "There are no tests of the HTTP layer at all.",
  ["restapi/configure_fave.go", "restapi/operations/fave_api.go", "openapi-spec/schema.json", "adapters/handlers/*.go"],
  ["handler registration", "route table", "response constructors"])
p("C11", "Vectors of different dimension are rejected, never compared",
  "No distance is ever computed between vectors of different length: every public distance computation checks the lengths first and fails, and that failure makes an add with a vector of the wrong dimension fail.",
  ["inputs", "histories"],
  "every pair of vectors reaching a distance function",
  "The distance tests use equal lengths only; kernels read past the shorter vector.",
  ["pkg/hnsw/distancer/*.go", "pkg/hnsw/index.go", "pkg/hnsw/search.go", "pkg/vectorizer/vector.go"],
  ["length check before each kernel call"])
p("C12", "Cosine search works on normalised vectors everywhere",
  "With the cosine metric every vector is normalised before it enters the graph, the vector caches or a query, on every insert and search entry point, and normalising never changes the vector the caller passed in.",
  ["inputs", "histories"],
  "every vector added or queried, on every entry point",
  "No test compares results for un-normalised input across the entry points.",
  [INS, "pkg/hnsw/search.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/vector_cache.go", "pkg/hnsw/distancer/normalize.go"],
  ["Normalize on Add / SearchByVector / KnnSearchByVectorMaxDist / cache read"])
p("C13", "Deleted or disallowed vectors are never returned or linked",
  "A vector marked as deleted, or outside the filter given with a search, never appears in the results of any search and never gets a link from a newly inserted vector, and no vector links to itself or to more neighbours than its layer's maximum.",
  ["histories", "inputs", "schedules"],
  "every sequence of inserts, deletions and searches with any filter",
  "Deletion is not reachable from the REST tests, and the index test file does not compile.",
  ["pkg/hnsw/search.go", "pkg/hnsw/flat_search.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/delete.go"],
  ["tombstone and allow-list filters before results.Insert", "skipNeighbor", "maximumConnections"])
p("C14", "A flush writes every changed graph node, the entry point and the count",
  "A node whose level, links or vector changed since it was last written is written by the next flush; it counts as written only after the store accepted it, and what is written is the node under its own id. A flush also stores the current entry point and the count it was given, loading gives back exactly what was stored, and an index is used only with its stored entry point loaded.",
  ["histories", "fault_sequences", "schedules"],
  "every sequence of inserts, link updates, flushes and storage failures",
  "No test reloads a graph after flushing it.",
  [INS, "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/vertex.go", "pkg/hnsw/delete.go"],
  ["Committed flag", "Flush loop"])
p("C15", "Commit-log writer and readers agree on every record",
  "For each kind of commit-log record, what is written has exactly the fields, widths, order and byte order that the readers expect, the reader accounts for exactly the bytes of a record, and a reader never uses a partially read record. Every record kind that can be written can be read.",
  ["inputs", "crash_points"],
  "every record kind and content, every point at which the log may have been cut off",
  "No test writes a log and reads it back.",
  ["pkg/hnsw/condensor.go", "pkg/hnsw/deserializer.go", "pkg/hnsw/condensor_mmap_analyzer.go", "pkg/hnsw/commit_logger.go"],
  ["record writers", "Deserializer.Do", "valid length accounting"])
p("C16", "Commit-log maintenance never loses a log",
  "While logs are condensed, combined or repaired, an original log is removed only after its complete replacement has been written out and closed without error, a replacement gets its final name only when complete, and leftovers of an interrupted run are never taken for complete logs.",
  ["crash_points", "fault_sequences"],
  "every crash point and every failing file operation during maintenance",
  "No test interrupts maintenance or makes a file operation fail.",
  ["pkg/hnsw/condensor.go", "pkg/hnsw/commit_log_combiner.go", "pkg/hnsw/corrupt_commit_logs_fixer.go", "pkg/hnsw/commit_logger.go"],
  ["write, flush, close, rename, remove ordering"])
p("C17", "Index settings are parsed into the right fields and validated",
  "Each index setting given ends up in its own field and nowhere else, and an absent one keeps its default; a number that is not a number, an unknown encoder or distribution, and too few connections or construction candidates are rejected with an error. An update that changes an immutable setting (construction candidates, connections, clean-up interval) is rejected, and each parameter of the index is made from its own setting, on creation and on an update.",
  ["inputs", "configurations"],
  "every map of settings, every combination of present, absent and ill-typed values",
  "The table tests sample a few combinations; most single-setting and ill-typed inputs are untested.",
  ["pkg/hnsw/user_config.go", "pkg/hnsw/pq_config.go", "pkg/hnsw/config_update.go", "pkg/hnsw/config.go"],
  ["ParseAndValidateConfig", "SetDefaults", "ValidateUserConfigUpdate"])
p("C18", "The vectorizer client returns an embedding or an error",
  "A call to the vectorizer service either yields the non-empty embedding the service sent with a success status, or an error: no answer with another status, undecodable body or missing embedding is taken for a result. Its calls are bounded in time and its responses are always closed.",
  ["inputs", "fault_sequences"],
  "every status, body and failure of the vectorizer service",
  "The client has no tests.",
  ["pkg/vectorizer/rest/vectorizer.go"], ["status check", "decode check", "body close"])
p("C19", "No data access without a session and an open pod",
  "Every operation on collections or documents is refused with an error, before it touches storage, unless a user is logged in and the pod is open.",
  ["histories", "schedules"],
  "every operation in every state of the client (before login, after failed login, before the pod is opened)",
  "Tests always log in and open the pod first.",
  [DOC], ["sessionId and podInfo checks"])
p("C20", "Index types survive the round trip through the interface",
  "Every index type a client may ask for when creating a collection is created as that type and listed back under the same name; any other type is refused and nothing is created.",
  ["inputs"],
  "every index type name and every stored index type",
  "No test covers the handlers.",
  ["adapters/handlers/collections.go", "openapi-spec/schema.json"], ["type switch on create", "type switch on list"])
p("C21", "Files, responses, tickers and cancellations are always released",
  "Every file, HTTP response body, ticker and cancellable context that an operation opens is closed or handed on by the time the operation ends, on every path including every error return.",
  ["fault_sequences", "inputs"],
  "every path, with any step failing",
  "Leaks only show after many failures; no test injects any.",
  ["pkg/hnsw/*.go", "pkg/vectorizer/rest/vectorizer.go", "cmd/fave-server/main.go"], ["os.Open / Create, http.Get / Post, time.NewTicker, context.WithTimeout"])
p("C22", "Each environment setting configures what it names",
  "Each documented environment variable sets its own configuration value and no other, an unset variable leaves the value alone, defaults apply only to values nobody set, and the value reaches the component it is meant for.",
  ["configurations"],
  "every combination of set and unset variables",
  "There are no tests of configuration.",
  ["adapters/handlers/environment.go", "adapters/handlers/defaults.go", "adapters/handlers/handler.go"], ["FromEnv", "SetDefaults", "NewHandler"])
p("C23", "Pooled work objects are clean when taken and unused once returned",
  "A scratch object taken from a pool starts empty, is used by one operation at a time, and is never touched by the operation after it has been given back; visited lists are borrowed and returned only under the pool's lock.",
  ["schedules", "histories"],
  "every interleaving of operations sharing the pools",
  "Reuse effects need concurrent operations; the pool test is single-threaded.",
  ["pkg/hnsw/pools.go", "pkg/hnsw/search.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/visited/pool.go"], ["Get/Put and Borrow/Return"])
p("C24", "Distances the index reports are exact for the chosen metric",
  "Every distance returned equals the metric's mathematical distance of the two vectors up to floating-point rounding, whichever kernel computes it.",
  ["inputs", "configurations"], "every pair of vectors, every CPU kernel",
  "Tests sample vectors; kernels differ per CPU.",
  ["pkg/hnsw/distancer/*.go", "pkg/hnsw/distancer/asm/*"], ["SIMD kernels and Go fallbacks"])
p("C25", "Search finds the true nearest neighbours",
  "A search returns the documents that are really nearest to the query among those within the distance, with high recall at every collection size.",
  ["inputs", "histories"], "every collection content and query",
  "Recall is a statistical property of the graph; no recall test compiles.",
  ["pkg/hnsw/search.go", "pkg/hnsw/heuristic.go"], ["graph traversal"])
p("C26", "The candidate queues always hand out the right element",
  "A minimum queue always pops the smallest and a maximum queue the largest remaining distance, for every sequence of insertions and removals.",
  ["inputs", "histories"], "every sequence of queue operations",
  "Tests cover two short sequences.",
  ["pkg/hnsw/priorityqueue/queue.go", "pkg/hnsw/priorityqueue/queue_with_index.go"], ["heap sift up and down"])
p("C27", "Condensing a commit log preserves the graph it describes",
  "Reading a condensed log in place of the original, at any position in a sequence of logs, yields the same graph, entry point and deletions.",
  ["histories"], "every sequence of log records and every placement of the log among others",
  "No test condenses a log.",
  ["pkg/hnsw/condensor.go", "pkg/hnsw/deserializer.go"], ["replace information", "record replay"])
p("C28", "A search visits each node at most once, however often lists are reused",
  "Within one search no node is taken as a candidate or result twice: every neighbour taken was tested as not visited, and it and every entry point is marked as visited where later tests see it. Marks left by earlier searches never hide a node, and no mark of this search is lost, even when the mark counter wraps around or the list grows.",
  ["histories", "inputs"], "every sequence of searches sharing one visited list",
  "Tests cover one wrap-around and one growth.",
  ["pkg/hnsw/visited/list_set.go", "pkg/hnsw/search.go"], ["versioned marks", "searchLayerByVector", "insertViableEntrypointsAsCandidatesAndResults"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
