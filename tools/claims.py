CLAIMS.update({
 'C05':(SIM+": bounds, slot pairing and inductive index relations of searches","Limit, distance guard, order and pairing are proved for all values from linear facts and loop-inductive index relations; that a heap pops its extreme is C26 and trusted here."),
 'C19':(SIM+": typestate session/pod before every storage access","Every storage, key-value and index access of every client operation is reached only after the session and pod checks, and both are only ever set from a successful login or pod opening."),
})
CLAIMS.update({
 'C20':(SIM+": value flow of index names and types, complete scans","Every path of create and list is covered for all type names; what the store itself does with an index is trusted."),
 'C22':(SIM+": source-to-field flow with precedence","Every configuration field is traced from its source on every path of start-up."),
})
CLAIMS.update({
 'C18':(SIM+": typestate of HTTP responses in the vectorizer client","Every path of every vectorizer implementation: request, status, decoding, embedding, time limit. What the embedding service answers is outside."),
 'C21':(SIM+": ownership (typestate) of files, responses, tickers and cancel functions","Every path of every function that opens something, with every call failing; objects kept by other objects are followed one level."),
})
CLAIMS.update({
 'C10':(SIM+": route table, served specification and handlers against the specification","Every documented operation and every path of its handler; binding and validation of the JSON text itself is the go-openapi runtime's."),
})

CLAIMS.update({'C11':(SIM+": every comparison of two vectors is preceded by an equality of their lengths, and a failed comparison fails every caller up to the add or search","Every path of every comparison for all lengths; the assembly kernels themselves are outside.")})

CLAIMS.update({'C12':(SIM+": flow of caller vectors to comparisons, graph and caches, split by metric","Every path of every entry point and of the vector cache, for both answers of the metric test; rounding is outside.")})

CLAIMS.update({'C23':(SIM+": typestate of pooled objects (taken, emptied, in use, given back)","Every path of every function that takes or gives back a pooled object.")})

LOCK=SIM+": lock sets and summaries of every function"
CLAIMS.update({
 'C07':(LOCK+", lock-order graph over all call paths","Every path of every function that can be called, every lock of the repository; locks of the same field of different objects are treated as one, and panics are not paths."),
 'C08':(LOCK+", a table of guarded fields, and ownership of objects not yet visible to others","Every access to the fields in the table by every function that can be called. Data handed out by value or through interfaces of other modules (LRU caches, allow lists) is outside."),
})

CLAIMS.update({'C09':(SIM+": every goroutine body run at its go statement, with the wait group, channel or error group it signals on; ownership of what it writes","Every path of every function that starts a goroutine whose end somebody can wait for, for any number of workers. Background maintenance nobody waits for is outside, unless it reaches storage from a request.")})

CLAIMS.update({'C13':(SIM+": what is known of every id that enters a queue or list (no tombstone, in the filter, not the node's own), sizes of link lists against the layer's maximum","Every path of every search, of the neighbour selection, of every function that sets links, and of the tombstone bookkeeping, for any graph. Whether a tombstone is set between the check and the use is outside (C08 decides the locking).")})
CLAIMS.update({'C14':(SIM+": typestate of graph nodes (changed, marked, serialised, stored, marked as written) through every function that changes, stores, caches or loads one; coverage of the flush loop; stored names and layout","Every path of every such function, for any graph and any storage failure. A bounded cache that drops unwritten nodes is listed as a known finding.")})

CLAIMS.update({'C17':(SIM+": value flow from the keys of the settings to the fields, and from the fields to the parameters of the index; loops over written-out tables are taken round by round","Every path of the parser, of the update check, of the constructor and of the update, for any map of settings.")})

CLAIMS.update({'C06':(SIM+": every instruction that can panic (dereference, index, slice, type assertion, map write, division, explicit panic) is an obligation on nilness, bounds and types","Every path of every handler, client operation and vectorizer method, for any request and any failure; in the index, every use of a looked-up node and every explicit panic. Out-of-range indexes inside the index package are outside.")})

CLAIMS.update({'C16':(SIM+": typestate of log files (opened, written, flushed, closed, renamed, removed) and provenance of their names","Every path and every failing file operation of condensing, combining, repairing and listing the logs, for any directory. Power loss (no fsync) is outside; a name is told from another by where it came from.")})

CLAIMS.update({'C28':(SIM+": an invariant of the visited list (elements are at most the counter, those equal to it are marked) is shown to be kept by marking, testing, growing, resetting and making a list; typestate of every neighbour and entry point a search takes (tested, marked)","Every path of the list's methods for any node id and any state of the list, including wrap-around and growth, and every path of one round of the loops of a search; the pool resets a list before it is lent again and lends it to one search at a time. Whether the new size of a growing list is large enough (numeric) and duplicate links of one node to another are outside. A list that keeps its marks in another way than a slice headed by a counter is not judged.")})
