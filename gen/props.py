def P(id, title, statement, over, text, why, files, mechanism, technique=None, level_note=None, na=None, observe=None, state=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe or [], hook_needed=None))
    if state:
        p["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if na:
        p["na"] = na
    else:
        p["technique"] = technique
        p["level_note"] = level_note
    return p

SIM = "Decided over every control-flow path of every entry point with same-package callees expanded; nothing is executed. Trusts: go/types and go/ssa, the alias model (distinct access paths are distinct objects unless merged), and that code outside the package does not touch its locks. "

PROPS = [
P("C01", "Every lock and segment handle is released on every exit",
  "Whatever an operation on a list, store, manager or backup job is given, and whichever storage call fails, every lock and every locked segment it acquired is released exactly once by the time it returns. Nothing is released that was not acquired. After any error the list stays usable for later operations.",
  ["inputs", "fault_sequences"], "All inputs and all combinations of failing storage calls, cache states and context cancellations, over every exit of every operation.",
  "Tests almost never make a storage call fail, and a leaked lock only shows in a later call that then hangs.",
  ["list.go", "segments.go", "segment.go", "lists.go", "blobstore/lazysaver.go", "blobstore/maxsize.go", "backup/job.go"],
  [("segments.unlock / removeUnlock", "list.go loadSegments, newSegments"), ("lockedSegment.unlock", "segments.go elementFullIdx, replaceSegment")],
  "path-sensitive typestate over go/ssa: lock and segment-handle ownership on every exit",
  SIM + "Does not follow panicking paths.", observe=["a later call on the same list blocks forever"]),
P("C02", "No operation deadlocks with itself or with another operation",
  "No operation waits for a lock or a goroutine that can only proceed once the operation itself continues, and no set of concurrent operations on lists, segments, stores or services can wait for each other in a circle. This includes readers that take the same reader lock twice, since a writer may queue in between.",
  ["schedules"], "All interleavings of any number of concurrent operations on the same list, store or manager.",
  "The interleavings that block need two goroutines at particular instructions; the tests run a few schedules only.",
  ["list.go", "segments.go", "segment.go", "blobstore/lazysaver.go", "blobstore/maxsize.go", "backup/job.go"],
  [("lock hierarchy updateLock, loadingLock, segmentsLock, list lock, SegmentsLock, segment lock, loading lock", "list.go, segments.go")],
  "path-sensitive typestate and lock-order graph over go/ssa",
  SIM + "Cycles of up to three acquisitions are searched; two acquisitions under a common exclusive lock are not counted.", observe=["requests hang"]),
P("C03", "Update requests are admitted by a token that is always returned",
  "Every API request that changes lists holds one update token while it does so, and returns it exactly once whatever happens. A request that is not admitted changes nothing, so the configured update limit holds and shutdown can wait for running updates.",
  ["inputs", "schedules", "fault_sequences"], "All requests to all updating endpoints, with every error and cancellation, at any concurrency.",
  "Tests run with few parallel updates, so a missing or lost token is invisible until the bucket runs dry in production.",
  ["api/shutdown.go", "api/elements.go", "api/lists.go", "api/multilist.go", "bucket.go"],
  [("UpdateRequest", "api/shutdown.go"), ("Bucket", "bucket.go")],
  "path-sensitive typestate over go/ssa: token held at every mutating call, returned on every exit",
  SIM + "The list of operations that change lists is a table confirmed by reading; a bucket is assumed to be configured.", observe=["HTTP update endpoints stop answering"]),
P("C04", "Parallel work always completes: every wait is matched by its workers",
  "When an operation fans work out over goroutines and waits for them, every started worker reports completion exactly once on each of its paths and the waiter waits for exactly the workers that were started. No error, cancellation or empty input leaves the waiter blocked or lets it continue early. Channels between them have room for every result, are closed when they are read to their end, get back each token that was taken, and a service that is asked to stop always answers.",
  ["inputs", "fault_sequences", "schedules"], "All element distributions over segments, all failing loads and saves inside workers, all cancellations.",
  "Worker error paths need a storage fault in a specific segment; tests use a store that does not fail.",
  ["list.go", "segments.go", "lists.go", "elements.go", "api/multilist.go", "tools.go"],
  [("waitErr", "tools.go"), ("wait groups around per-segment goroutines", "segments.go, list.go")],
  "path-sensitive typestate over go/ssa: wait-group balance of every started goroutine",
  SIM + "Non-constant Add counts are matched per loop iteration, not by value.", observe=["the operation never returns or panics with a negative counter"]),
P("C05", "A failed storage operation is never reported as success",
  "When a read, write, delete, flush or close of the storage, or the encoding of what goes there, fails while an operation needs it, the operation returns that failure to its caller: it is not logged and forgotten, overwritten by a later success, or lost between goroutines. An operation that returns no error has had all its storage calls succeed, apart from documented best-effort clean-ups and recoveries.",
  ["fault_sequences", "inputs"], "Every single failing storage, stream or encoding call in every operation that returns an error, on every path.",
  "There is one fault for each of several hundred call sites and path; tests inject a handful.",
  ["list.go", "lists.go", "segments.go", "segment.go", "elements.go", "blobstore/*", "backup/*", "api/*.go"],
  [("waitErr", "tools.go"), ("error results of blobstore.Store", "blobstore/blobstore.go")],
  "path-sensitive error-flow analysis over go/ssa: one failing call per path, tracked to every exit",
  "Decided for every function with an error result, one failing call per path, over all control-flow paths with closures and error helpers expanded. Recoveries and best-effort operations are tables with a reason each. What a receiver does with an error handed to it over a channel or call is checked in that function only.",
  observe=["a client is told that an update succeeded that is not stored"]),
P("C06", "API tokens only reach the endpoints, lists and elements they grant",
  "With token checks enabled, an API endpoint does its work only for requests whose token carries the scope documented for it. Endpoints open to read, update or delete tokens touch a list or a directly addressed element only after the token's list and element restrictions allowed exactly these lists and elements; a restriction allows only the identifiers it names. Tokens the service creates carry the scope and restrictions asked for.",
  ["inputs"], "All requests to all endpoints, with any combination of identifiers in the path, the query and the body, metadata matches, and token claims.",
  "Tests check one wrong token per endpoint; a missing check shows only for the endpoint, source of identifiers and claim that lacks it.",
  ["api/jwt.go", "api/elements.go", "api/lists.go", "api/multilist.go", "api/app/controllers.go", "api/app/security.go"],
  [("HasAccessToList, HasAccessToElement", "api/jwt.go"), ("handleSecurity", "api/app/security.go"), ("NewJWTMiddleware", "api/jwt.go")],
  "route and scope extraction plus path-sensitive authorization typestate over go/ssa",
  "Every endpoint is analysed, every path of every handler with its closures and helpers. Trusts the goa middleware to verify signature, expiry and scopes. Sources of identifiers are tracked per request field. Neighbors and ranges are not restricted by element, and the manage scope is not restricted, as documented.",
  observe=["a restricted token reads or changes other lists or elements"]),
P("C07", "What is stored or backed up reads back as it was written",
  "Everything the system stores or writes to a backup is read back into the same fields with the same values, whether it is read as a stream or from bytes. Every record starts with its format version, every reader refuses a record with another version, and the stored layout of lists, segments, elements and backups changes only together with its version number.",
  ["inputs", "histories"], "All lists, segments, elements and backups, written by this or an earlier build with the same format versions.",
  "Round-trip tests use few and mostly zero values, so exchanged or dropped fields go unnoticed; data of earlier builds is not tested at all.",
  ["element_gen.go", "elements_gen.go", "segment_gen.go", "segments_gen.go", "list_gen.go", "segment.go", "segments.go", "lists.go", "list.go", "backup/job.go", "backup/restore.go"],
  [("elementsVersion, segmentsVersion, segmentVersion, listVersion, backupVersion, backupListVersion", "element.go, segments.go, segment.go, list.go, backup/job.go"), ("EncodeMsg/DecodeMsg/MarshalMsg/UnmarshalMsg", "*_gen.go")],
  "wire-grammar extraction over go/ssa, automata inclusion between writers and readers",
  "Exact for the sequence of stream operations, fields and versions on error-free paths of every encoder, decoder, writer and reader. Trusts the msgp and compression libraries to invert themselves. The recorded layout is that of the pinned commit.",
  observe=["a restarted or restored server misses or misplaces elements"]),
P("C08", "State shared by concurrent operations is guarded by locks",
  "Whatever several operations can reach at the same time - the fields of lists, segments, managers, stores, caches and backup jobs, the maps and slices in them, and package variables - is only changed while a lock is held that keeps every other operation from reading or changing it. The goroutines started by one operation only change what they do not share with each other, or do so under a lock. A map that is updated later is never handed to a caller.",
  ["schedules"], "All interleavings of API requests, list operations, store operations, backups and background services.",
  "Tests run without the race detector and with little concurrency; a race needs a particular interleaving and usually corrupts state silently.",
  ["list.go", "lists.go", "segments.go", "segment.go", "manager.go", "blobstore/lazysaver.go", "blobstore/maxsize.go", "blobstore/badgerstore/badger.go", "blobstore/memstore/memstore.go", "backup/job.go", "api/multilist.go"],
  [("List.RWMutex, segmentsLock, updateLock, loadingLock", "list.go"), ("Segments.SegmentsLock, elementLoader.Mu", "segments.go, segment.go"), ("onEveryList", "api/multilist.go"), ("jobState.mu, runningMu", "backup/job.go"), ("LazySaver.mu, MaxSizeStore.mu, BadgerStore.mu, MemBlobStore.blobsMu", "blobstore/")],
  "path-sensitive lockset analysis over go/ssa",
  "Covers every access to fields of module types and package variables on all explored paths from all exported operations, for objects that existed before or were published by the operation. Locks are compared per class, not per object. Contents of element slices and byte buffers handed from one owner to the next are not tracked.",
  observe=["torn or lost updates, or the process ends with a concurrent map access"]),
P("C10", "Changes to a list are stored before the operation succeeds",
  "When an operation on a list reports success, every segment whose elements it changed and every list of segments it changed has been stored, with the elements the segment has now. What moves from one segment to another is stored in its new place before its old place is overwritten or deleted, so a failing storage call in a split, merge, reindex or repair never leaves elements only in memory. After a failed operation the cache does not serve elements that differ from the stored ones.",
  ["crash points", "inputs", "histories"], "Every path of every list operation, every storage call failing or not, with and without a cache.",
  "Tests keep the list in memory or in one cache and do not fail single storage calls, so a segment that was never stored still looks right.",
  ["list.go", "segments.go", "segment.go"],
  [("split, UpdateElements, populate, reindex, deleteAll, cloneElements, saveSegments", "list.go"), ("replaceSegment, Insert, DeleteElementsIdx, updateIndexElements, splitIdx, mergeWithNext, Save", "segments.go"), ("saveElements", "segment.go")],
  "path-sensitive typestate over go/ssa",
  "Changes are recognised by assignments to elements and to lists of segments and by a mutation summary of the callees; that the stored values have the right scores, counts and ranges is not decided. Storage calls are taken one at a time, so atomicity across several stored segments is not covered.",
  observe=["elements missing or doubled after the list is loaded again"]),
P("C11", "Blob stores keep blobs apart, intact and report missing ones",
  "Every blob store, alone or wrapped around another one, addresses a blob by its set and its key, the same way for reading, writing and deleting, so that different blobs never share a place. It keeps its own copy of what is written: the caller may reuse its buffer, and bytes handed out by a read are never shared with what the store keeps or reuses later. A write it has accepted is kept, and stays readable, until it is stored. A read of a blob that is not there reports ErrBlobNotFound, and a wrapping store passes failures of the store below on unchanged.",
  ["inputs", "histories", "schedules"], "All stores, all sets and keys, all sequences of reads, writes and deletes, every inner read failing or not.",
  "Tests use one set and few keys per store, and shared buffers corrupt blobs only when the caller or the pool reuses them in between.",
  ["blobstore/blobstore.go", "blobstore/lazysaver.go", "blobstore/maxsize.go", "blobstore/retry.go", "blobstore/memstore/memstore.go", "blobstore/badgerstore/badger.go", "blobstore/boltstore/boltstore.go", "blobstore/dynamo/dynamo.go", "blobstore/aerostore/aerostore.go"],
  [("Store, WithSet, ErrBlobNotFound", "blobstore/blobstore.go"), ("lazyKey, saverBuffers", "blobstore/lazysaver.go"), ("mapKey", "blobstore/maxsize.go"), ("toKey", "blobstore/memstore/memstore.go")],
  "provenance of addresses, alias analysis and path-sensitive typestate over go/ssa for every blob store",
  "Covers every type that implements the store interfaces. Addresses are compared as expressions over the two names; an address built by something the analysis cannot expand is not judged. Aliasing is decided per allocation site, field and channel without regard to order. Names are assumed not to contain the separator.",
  observe=["a list reads the elements of another segment, or a half overwritten one"]),
P("C12", "Cancelling an operation reaches all the work done for it",
  "Every list, segment, storage, backup and API operation hands the context it was given, or one derived from it, to everything it does: to the storage calls, to the goroutines it starts and to the operations it is built from. No step runs under a fresh or a server-wide context, or under one that was already cancelled, and a request that waits for an update token stops waiting when it is cancelled.",
  ["schedules", "inputs"], "All calls on all paths of all operations, cancelled at any time.",
  "Tests rarely cancel, and a step that ignores the cancellation only shows as work that goes on, or locks and tokens that stay taken, after the client is gone.",
  ["list.go", "segments.go", "segment.go", "lists.go", "manager.go", "api/*.go", "blobstore/retry.go", "blobstore/maxsize.go", "backup/job.go", "backup/restore.go"],
  [("CancelWithRequest, UpdateRequest", "api/shutdown.go"), ("waitErr", "tools.go"), ("lctx", "blobstore/retry.go")],
  "provenance of contexts over go/ssa, control-flow reachability",
  "Exact for where the context of each call comes from. Whether a store or a loop without calls looks at its context is not decided. One call is detached on purpose and listed with its reason; background services have contexts of their own.",
  observe=["storage work continues after the request was cancelled"]),
P("C09", "Elements are compared and ranked by one documented order everywhere",
  "Wherever elements, index entries, ids or ranked results are compared or sorted, the comparison is a strict order without contradictions, and elements are compared by the whole documented ranking order: score descending, tie breaker descending, earliest update time first, lowest id first. No function leaves elements sorted in another way. Of duplicate elements the one updated last is kept, of those the one with the highest score. The ranks from the top and from the bottom reported for one element describe the same position.",
  ["inputs"], "All values of scores, tie breakers, update times and ids.",
  "Tests sort a few elements that mostly differ in score; a comparison that is wrong for ties, extreme values or a third element goes unnoticed, and every search in a list relies on the order.",
  ["element.go", "elements.go", "rankedelement.go", "list-id.go", "segments.go", "api/morph/elements.go", "list.go"],
  [("Above, aboveP", "element.go"), ("Sorter, Deduplicate, Merge, SplitSize", "elements.go"), ("CalculateFromBottom, Offset", "rankedelement.go"), ("ToRanked", "api/morph/elements.go")],
  "abstract evaluation over field orderings; dataflow on go/ssa",
  "Exact for comparators made of comparisons of fields (all orderings of the fields are enumerated). That merging and searching put an element where its order says, and the totals ranks are counted from, are not decided.",
  observe=["two elements in an order that contradicts Above"]),
P("C13", "Whatever an operation opens is closed once, in order, and not used after",
  "Every file, response body, stream, compressor, transaction, ticker and cancel function that an operation opens or obtains is released on every path, failing ones included, or handed on to whoever releases it. Nothing is used after it was released: pooled encoders and decoders are given back once, and neither they nor the bytes taken from them are touched afterwards. A writer is not closed while a compressor that writes to it still holds data.",
  ["inputs", "histories", "schedules"], "All paths of all operations that open something, every call failing or not.",
  "Tests succeed and end at once; a leak on a failing path shows after days, and a pooled buffer that is used late shows only when another goroutine has taken it.",
  ["backup/job.go", "backup/restore.go", "backup/provider.go", "backup/server/rankdb.go", "lists.go", "msgppool.go", "segment.go", "segments.go", "manager.go", "api/*.go", "blobstore/retry.go", "blobstore/badgerstore/badger.go"],
  [("NewWriterMsg, WriterMsgp.Close, ReaderMsgp.Close", "msgppool.go"), ("Request.Start", "backup/job.go"), ("RestoreInfo.Restore", "backup/restore.go"), ("Transfer, decodeError", "backup/server/rankdb.go")],
  "path-sensitive typestate over go/ssa (abstract interpretation)",
  "Every acquisition site the type system shows (results with a Close, Stop, or Commit/Discard, cancel functions, responses) is followed on all paths. What is passed to a function of another module that could release it counts as handed on. Values kept in long-lived structures are not followed to their end.",
  observe=["connections and goroutines accumulate", "a stored segment holds the bytes of another one"]),
P("C14", "No failed call, left-out value or unset field makes the server panic on nil",
  "What a failed call returns is not used: when a load, lookup or query fails or finds nothing, the caller does not reach through the missing result, and does not take the first of no results. Values that a request may leave out, and parts of the system that may not be configured (cache, backup store, lazy saver, callbacks), are used only after checking that they are there. Maps are made before they are written. What a token carries is not assumed to have a type.",
  ["inputs", "faults"], "All paths of all functions, every call failing or not, every optional value given or not.",
  "Tests give the values and let the calls succeed; a panic in a request goroutine on a failing store takes the whole server down with unsaved lists.",
  ["list.go", "segments.go", "lists.go", "manager.go", "api/*.go", "api/morph/*.go", "backup/*.go", "blobstore/*.go"],
  [("List.loadSegments, Segments.elementFullIdx and their callers", "list.go"), ("controllers", "api/"), ("RestoreInfo.Restore", "backup/restore.go"), ("HasAccessToList, HasAccessToElement", "api/jwt.go")],
  "path-sensitive nilness with summaries of which results are nil together (abstract interpretation of go/ssa)",
  "Values that are nil on the path are found wherever they are used. Pointers in long-lived structures and parameters are taken to be set unless the path says otherwise or they are optional. Index bounds other than the first of a query's results are not decided.",
  observe=["a request ends with a stack trace instead of an error", "the process dies when the store fails"]),
P("C15", "Request parameters, options and settings take effect; answers carry their values",
  "Every parameter of a request is given to the operation it is meant for: the list and element ids, payload elements with id, score, tie breaker and payload, ranges and limits, metadata filters, split and merge sizes, backup and restore destinations, names and flags. Every list, retry and lazy saver option and every setting in the configuration file reaches the part of the server it configures. None is ignored, given in place of another one, or turned into its opposite. Every field of an answer about elements, lists, backups and restores is filled in wherever the answer is built, from the value of the same meaning.",
  ["inputs"], "All requests, option values and configurations, all endpoints.",
  "Tests use defaults and the common parameters; a setting that is ignored, swapped or inverted changes nothing in a test that does not set it, and shows in production as lost durability or wrong answers.",
  ["api/*.go", "api/morph/*.go", "list.go", "blobstore/lazysaver.go", "blobstore/retry.go", "backup/restore.go"],
  [("controllers", "api/elements.go"), ("newBlobstore, StartServer", "api/rankdb.go"), ("conversions of elements, lists and backup status", "api/morph"), ("ListOption", "list.go"), ("LazySaveOption", "blobstore/lazysaver.go"), ("RetryOpt", "blobstore/retry.go")],
  "interprocedural value-flow over go/ssa against a recorded table of what each value is for",
  "For each of some 250 values the table names where it has to arrive (an argument, a field, a branch and what it switches, with its polarity); every run recomputes the flows from the source. Arithmetic on the way is not interpreted: off-by-one errors and clamping are not decided.",
  observe=["a parameter makes no difference", "an answer shows another field's value"]),
P("C90", "Ranks, percentiles and neighbour counts are numerically right",
  "For every list content, the rank from the top plus the rank from the bottom of an element is the number of elements less one, the rank is the number of elements above it, percentile queries return the element at that place, and ranges return the elements between the two places.",
  ["inputs"], "All list contents and all queries.",
  "Tests compare a few lists; ranks are sums over segments whose sizes depend on every earlier change.",
  ["segments.go", "list.go"], [("TopRange, BottomRange", "segments.go"), ("GetPercentile, GetRankTop, GetRankBottom", "list.go")],
  na="Ranks are sums of run-time segment sizes and positions found by binary search; no static argument in reach bounds or relates them. The order that ranks are defined by is decided in C09, that answers carry the rank of the right end in C15."),
P("C91", "Segments cover the whole score range and hold the elements of their range",
  "After every operation the score segments of a list are sorted, do not overlap and leave no gap, every element lies in the segment of its score, and the index names the segment each element is in.",
  ["inputs", "histories"], "All histories of inserts, updates, deletes, splits, merges and repairs.",
  "Tests run short histories with few segments.",
  ["segments.go", "segment.go", "list.go"], [("split, mergeWithNext, split by index", "segments.go"), ("updateIndexElements", "list.go")],
  na="The invariant relates run-time score values across segments and needs arithmetic reasoning over whole histories (limits, minimum and maximum of elements). What happens to it in storage is decided in C10, the order the segments are compared by in C09."),
P("C92", "Concurrent operations on a list have the effect of some sequential order",
  "Every answer to concurrent updates and queries of a list is one that the operations, done one after another in an order that respects real time, would have given.",
  ["schedules"], "All interleavings.",
  "Tests run few interleavings.",
  ["list.go", "segments.go"], [("segment locks, update lock", "list.go")],
  na="Linearizability is about values over interleavings. Its static ingredients are decided instead: shared state only under its lock (C08), locks held across an operation and released once (C01), no deadlock (C02)."),
]
