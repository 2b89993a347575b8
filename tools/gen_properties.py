#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "JSONL index is complete and exact for every append/sync/restart history",
 "After any history of appending to a JSONL data file, synchronizing and reopening the index, the index holds exactly one entry per indexed value of every newline-terminated record (value, byte range of the value and byte range of its record), and for search fields exactly the unigrams, bigrams and trigrams of each string, and nothing else. A record whose newline has not been written yet contributes nothing until it is complete. The recorded entry count and read position, the field names and types, and the per-field value-length totals equal those of the records indexed.",
 ["histories", "inputs", "schedules"],
 "every interleaving of appends of arbitrary byte chunks (cut anywhere, also inside a record), synchronizations and reopenings, over flat and nested objects, all JSON scalar types, any whitespace, unicode, any number of fields, any set of search fields, and data larger than 4 GiB",
 "The tests sync a handful of small fixed documents once or twice; none cuts a record in the middle, mixes many fields with restarts, or checks that nothing besides the expected entries is present.",
 ["pkg/handlers/jsonl.go", "pkg/appendable/appendable.go", "pkg/appendable/index_file.go", "pkg/bptree/bptree.go", "pkg/bptree/node.go", "pkg/linkedpage/linkedpage.go", "pkg/ngram/tokenizer.go"],
 [("incremental read from the stored offset to the last newline", "pkg/handlers/jsonl.go Synchronize"), ("one tree per (field, type)", "pkg/appendable/index_file.go FindOrCreateIndex")],
 ["tree iteration and lookups over a reopened index", "file metadata", "index metadata"],
 [("ReadOffset/Entries", "how much of the data file is indexed", "pkg/appendable/appendable.go FileMeta")])

prop("C02", "CSV index is complete and exact for every append/sync/restart history",
 "After any history of appending to a CSV data file, synchronizing and reopening the index, every complete data row contributes exactly one entry per cell, under the column name of the header row and the inferred type, with the byte ranges of the cell and of the row, and nothing else is indexed. The header row is never indexed as data and always names the columns, however the appends, synchronizations and restarts are cut.",
 ["histories", "inputs", "schedules"],
 "every interleaving of appends of byte chunks cut anywhere (also inside the header row, or ending exactly at its newline), synchronizations and reopenings; rows shorter than the header; numbers, booleans, empty cells, quoted cells without embedded newlines",
 "The tests sync small fixed documents; none starts from a header-only file, resumes after ragged rows, or checks byte ranges across restarts.",
 ["pkg/handlers/csv.go", "pkg/appendable/index_file.go", "pkg/bptree/bptree.go"],
 [("header taken from the data file", "pkg/handlers/csv.go Synchronize"), ("resume from the stored offset", "pkg/handlers/csv.go Synchronize")],
 ["tree iteration over a reopened index", "file metadata"],
 [("ReadOffset", "bytes of the data file indexed", "pkg/appendable/appendable.go FileMeta")])

prop("C03", "Index contents do not depend on how synchronization was batched",
 "The same final data file yields the same logical index (fields, types, entries, totals, counters) no matter how its growth was divided into synchronizations and reopenings. Synchronizing when no complete new record exists changes no byte of the index, and the same history always produces byte-identical index files, whatever kind of storage is used.",
 ["histories", "schedules"],
 "every division of the growth of a data file into synchronizations and restarts, compared with one synchronization of the final file, on in-memory and memory-mapped storage",
 "The tests compare at most two synchronizations of one fixed document.",
 ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/appendable/index_file.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go"],
 [("offset-based resume", "pkg/handlers/jsonl.go Synchronize"), ("deterministic page allocation", "pkg/pagefile/pagefile.go NewPage")],
 ["bytes of the index file", "tree iteration"])

prop("C04", "The B+ tree is a faithful persistent ordered map",
 "For any sequence of insertions, lookups, iterations and reopenings, the tree stores every inserted (value, data range) key with its record pointer, refuses only keys already present and leaves the tree unchanged when it does, and iterating from any search key, forwards or backwards, visits exactly the stored keys on that side in byte order of value, then position. A lookup returns the first stored key not before the search key, and membership by value alone is reported exactly. This holds at every depth, for every key length and for inlined (fixed-width) and referenced values.",
 ["histories", "inputs"],
 "every operation sequence over keys of all lengths (0 to hundreds of bytes, heavy duplication, shared prefixes, ascending, descending and random orders), widths from one byte up to ones that force trees many levels deep, with reopening between any two operations",
 "Tests insert a few thousand keys in two or three orders and look up keys that are present; they do not search between leaves, iterate both ways, or reach trees of four or more levels.",
 ["pkg/bptree/bptree.go", "pkg/bptree/node.go", "pkg/pointer/referenced_value.go", "pkg/pagefile/pagefile.go"],
 [("node split and parent update", "pkg/bptree/bptree.go Insert"), ("stack-based iterator", "pkg/bptree/bptree.go TraversalIterator"), ("node codec", "pkg/bptree/node.go")],
 ["Find, Contains, Iter/Next/Prev/Key/Pointer", "Insert errors"])

prop("C05", "Storage errors are never swallowed",
 "If a read, write or seek of the index storage fails while an index is opened, synchronized or searched, that call reports an error; it never reports success with missing or wrong results. Storage that legally returns fewer bytes than asked for never changes any result.",
 ["fault_sequences", "histories"],
 "every position of a failing or short storage operation (transient or persistent) within open, synchronize, metadata access, index creation, lookup, membership and iteration",
 "All tests run on storage that never fails and never returns short reads.",
 ["pkg/appendable/index_file.go", "pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/bptree/bptree.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go", "pkg/btree/btree.go"],
 [("error returns on every storage call", "pkg/bptree/bptree.go, pkg/linkedpage/linkedpage.go, pkg/pagefile/pagefile.go")],
 ["returned errors", "iterator error state", "results of later calls without faults"])

prop("C06", "An interrupted synchronization never silently loses records",
 "If the indexing process dies, or its storage fails, between any two storage writes of a synchronization, then every later attempt to use the index file either reports an error or yields an index in which every record acknowledged by an earlier successful synchronization is present, with no wrong entry. If a later synchronization reports success, the index is complete for the whole data file.",
 ["crash_points", "fault_sequences", "histories"],
 "every storage operation of every synchronization as a stopping point (process death, failed write, failed file growth), repeatedly, followed by reopening, lookups and resynchronization, with later appends",
 "No test interrupts a synchronization.",
 ["pkg/bptree/bptree.go", "pkg/handlers/jsonl.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go", "pkg/appendable/index_file.go"],
 [("write order of new page, parent and root", "pkg/bptree/bptree.go Insert"), ("duplicate keys refused on replay", "pkg/bptree/bptree.go Insert"), ("read offset saved last", "pkg/handlers/jsonl.go Synchronize")],
 ["contents of the reopened index file", "errors of reopened synchronizations"])

prop("C07", "A malformed record is reported, costs nothing before it, and can be repaired",
 "Synchronizing a data file with a malformed record reports an error, and every complete record before the malformed one is indexed and stays indexed. No entry of the malformed record or of anything after it is indexed while it is malformed. Once the malformed line is replaced by a valid one, synchronization succeeds and the index is complete and exact.",
 ["histories", "fault_sequences", "inputs"],
 "every kind of malformation (truncated or corrupted JSON, wrong root type, wrong type for a search field, rows with too many cells, unreadable quoting) at every position, with any number of failed attempts, restarts and appends before the repair",
 "Tests only check that a few malformed inputs return an error.",
 ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/appendable/index_file.go"],
 [("metadata update at the end of synchronization", "pkg/handlers/jsonl.go Synchronize")],
 ["error of Synchronize", "index contents after failed and later synchronizations"])

prop("C08", "Page allocation never hands out a page that is in use",
 "For any sequence of page allocations, releases and reopenings, an allocated page never overlaps another live page or the reserved first page, its content is what was given (zero padded) and stays intact while live, and every released page is handed out again before the file grows. The record of free pages survives reopening, up to its stated capacity; a release that is refused changes nothing.",
 ["histories"],
 "every sequence of allocations, releases (valid, repeated, misaligned, beyond capacity), page writes and reopenings, including enough traffic to wrap the free list around many times",
 "Tests allocate and free a few pages in order; the free list never wraps and is hardly reopened.",
 ["pkg/pagefile/pagefile.go"],
 [("circular free list persisted in the first page", "pkg/pagefile/pagefile.go writeFreePageIndices")],
 ["offsets returned", "page contents", "page counts", "file size"],
 [("free page ring", "released pages", "pkg/pagefile/pagefile.go")])

prop("C09", "Metadata slots are isolated from one another",
 "For any sequence of creating slots and updating their roots and metadata, with reopenings, every slot reads back the root and metadata last written to it, slots are enumerated in creation order and none is lost, duplicated or altered by operations on another slot. The record of the file (read position, number of records) reads back as last written, and the field names listed, and whether there are any, are those of the slots. Two indexed fields therefore never disturb each other, whatever their number and the length of their names; metadata too long for its slot (the slot holds 252 bytes) or a name too long to store is refused with an error and leaves the index usable. An operation on the slots that meets a storage error and yet reports success has had its full effect, and one that reports the error leaves the other slots as they were.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of slot creation, root and metadata updates over any number of slots (across page boundaries) and metadata of every length an index can produce, interleaved with tree growth and reopenings",
 "Tests create a few slots with short metadata, and check each right after writing it.",
 ["pkg/linkedpage/linkedpage.go", "pkg/appendable/index_file.go", "pkg/appendable/appendable.go"],
 [("slot layout", "pkg/linkedpage/linkedpage.go rootMemoryPointerPageOffset"), ("field name limits", "pkg/appendable/index_file.go FindOrCreateIndex")],
 ["slot enumeration, roots, metadata", "index contents for long or many field names"])

prop("C10", "The memory-mapped file behaves as a growing file and survives failed growth",
 "For any sequence of reads, writes, positioned reads and writes, seeks, closes and reopenings, a memory-mapped file returns what an ordinary file would, and every acknowledged write is visible at once through any other descriptor of the file and after the process is gone. When the underlying file cannot grow, the write reports an error and everything acknowledged before stays readable through the map and in the file.",
 ["histories", "fault_sequences"],
 "every operation sequence within the bounds of the file and its growth, from empty and non-empty files, with growth failing (size limit, closed or read-only descriptor) at any write",
 "Tests do one or two operations each and never let growth fail.",
 ["pkg/mmap/mmap.go", "pkg/mmap/mremap_linux.go"],
 [("shared mapping, growth by write then remap", "pkg/mmap/mmap.go WriteAt")],
 ["returned counts, bytes and errors", "file contents through another descriptor"],
 [("mapping, seek position", "view of the file", "pkg/mmap/mmap.go")])

prop("C11", "A published index stays valid while the data file and index move on",
 "A copy of the index taken after any successful synchronization keeps answering exactly for the records it covers when it is read against any later state of the growing data file. The data file is only read, never modified, and indexing never depends on bytes after the last complete record.",
 ["histories", "schedules"],
 "every interleaving of data growth, synchronization, publication of index copies and reads of arbitrarily old copies against the current data file, including torn tails",
 "No test reads an old index against a newer data file.",
 ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/bptree/node.go", "README.md"],
 [("append-only pointers into the data file", "pkg/handlers/jsonl.go, pkg/bptree/node.go UnmarshalBinary")],
 ["reads of old index copies", "bytes of the data file"])

prop("C12", "The command-line indexer's success means a complete index",
 "When the command exits with status 0 the index file on disk is complete and exact for every complete record of the data file at that moment, whatever earlier runs did. When it cannot read the data or write the index it exits with a non-zero status, leaves the data file untouched, and never leaves an index that silently lacks records acknowledged by an earlier successful run.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of runs over a growing data file, with format and search-field flags, empty and missing files, and a storage limit hit at any point of index growth followed by reruns",
 "The command has no tests.",
 ["cmd/main.go", "pkg/mmap/mmap.go", "pkg/appendable/index_file.go"],
 [("mmap of data and index, panic on error", "cmd/main.go main")],
 ["exit status", "index file decoded independently", "data file bytes"])

prop("C13", "An index of another format or version is refused and left untouched",
 "Opening an existing index with a handler for a different data format, or one written by a different format version, fails with an error and changes no byte of the index file, which remains fully usable with the right handler. A file that is too short to carry a version and format is refused as well. A new index always records the version and format it was created with.",
 ["histories", "configurations"],
 "every history of opens with either handler, at any stage of a growing index and any version number other than the current one, including storage that returns short reads",
 "Tests check single mismatches on empty indexes, not that the file is unharmed and still works afterwards.",
 ["pkg/appendable/index_file.go", "pkg/appendable/appendable.go"],
 [("metadata check on open", "pkg/appendable/index_file.go NewIndexFile")],
 ["error of open", "bytes of the index file", "later synchronizations"])

prop("C14", "The vector store returns every stored vector exactly",
 "For any sequence of insertions, lookups and reopenings, looking up a stored id returns its data pointer and exactly the vector inserted, bit for bit; an absent id is never reported as found, and inserting an id twice is refused without changing the stored vector. Storage errors are reported and never yield a wrong vector.",
 ["histories", "inputs", "fault_sequences"],
 "every order of ids, every dimension that fits a page several times over, all float bit patterns, with reopening and storage faults at any operation",
 "Tests insert small id sets and look only at errors or at ids, so a lossy vector encoding is not noticed.",
 ["pkg/btree/btree.go", "pkg/btree/node.go"],
 [("node codec and split", "pkg/btree/node.go, pkg/btree/btree.go")],
 ["Find results", "Insert errors"])

prop("C15", "The nearest-neighbour graph is well formed and exact when exhaustive",
 "For any sequence of vector insertions and any outcome of the random level draws, inserting a vector of the right dimension never fails and gives it the next id, a vector of another dimension is refused without effect, every link joins two different stored vectors and carries their true distance, and a search returns at most as many vectors as asked for, all of them stored, distinct and with their true distances. When the search breadth and the degree bounds are at least the number of stored vectors, the result is exactly the nearest neighbours; and whatever the degrees, a search whose breadth is at least the number of stored vectors and that asks for all of them finds everything linked to what it finds. (Graphs are configured with a degree of two or more.)",
 ["inputs", "schedules"],
 "every insertion order, every sequence of level draws, dimensions and parameters, with duplicate and equidistant points",
 "Tests use a few fixed or randomly drawn point sets and cannot steer the level draws.",
 ["pkg/hnsw/hnsw.go", "pkg/hnsw/friends.go", "pkg/hnsw/heap.go"],
 [("layered greedy search and neighbour selection", "pkg/hnsw/hnsw.go")],
 ["KnnSearch results", "Neighborhood of every id"])

prop("C16", "Browser queries return exactly the matching records in order",
 "For any published index of a JSONL file and any valid query, the client yields exactly the records whose field satisfies the condition (all of them, if there are several on the field), each once, in the order of the field's values in the requested direction, at most the requested number of them, and with the selected top-level fields only. This holds for any delivery order, delay and chunking of the responses, for every legal form of the responses of a static file server, and for any number of concurrent queries on one client. The files do not change while the client uses them; a condition on a field or type that occurs nowhere yields nothing or is refused.",
 ["schedules", "inputs", "configurations"],
 "every comparison operator, ordering, limit and selection over strings, numbers, booleans and nulls, absent fields and absent search keys, with every order and chunking of network responses and concurrent queries, in both range-request modes",
 "Tests cover the query builder and single nodes; none runs a query against an index over a transport.",
 ["src/db/database.ts", "src/bptree/bptree.ts", "src/bptree/traversal.ts", "src/bptree/node.ts", "src/file/index-file.ts", "src/file/meta.ts", "src/file/multi.ts", "src/db/key-range.ts", "src/file/data-file.ts", "src/resolver/range-request.ts", "src/resolver/multipart.ts"],
 [("range iteration over the tree", "src/db/database.ts query"), ("range requests", "src/resolver/range-request.ts")],
 ["records yielded by Database.query"])

prop("C17", "Transport faults never give wrong answers, hang the client or poison it",
 "Whatever the server and network do to individual responses (failed connections, error statuses, resets, truncation, wrong or missing headers, a shape other than asked for, merged, missing, repeated or unasked parts), a query or search yields only correct records in the correct order and either completes exactly or fails with an error in a bounded number of steps. After the faults stop, the same client answers queries, searches and listings of the fields exactly.",
 ["fault_sequences", "schedules"],
 "every placement of dropped, reset, truncated, delayed, reordered, mis-shaped and error responses within the request sequence of queries, in both range-request modes, followed by fault-free queries on the same client",
 "No test has a failing transport.",
 ["src/resolver/range-request.ts", "src/resolver/multipart.ts", "src/file/index-file.ts", "src/file/meta.ts", "src/bptree/bptree.ts", "src/db/database.ts", "src/file/multi.ts", "src/resolver/cache.ts"],
 [("response validation and multipart parsing", "src/resolver/range-request.ts, src/resolver/multipart.ts"), ("promise caches", "src/file/meta.ts, src/db/database.ts, src/bptree/bptree.ts")],
 ["records yielded or error thrown", "number of transport steps used"])

prop("C18", "Browser search finds exactly the records sharing a token with the query",
 "For any published index with search fields and any search phrase, the client yields exactly the records whose field contains an n-gram of the phrase (of the lengths searched for), each once, in the order of their scores and never more than the requested number, for any delivery schedule of the responses and any number of concurrent searches; repeating the search gives the same set of records.",
 ["schedules", "inputs"],
 "every set of documents and phrases (one, two and more letters), every delivery order and chunking, repeated and concurrent searches",
 "Only the tokenizer and a small priority table have tests.",
 ["src/db/database.ts", "src/ngram/tokenizer.ts", "src/ngram/table.ts", "pkg/ngram/tokenizer.go", "pkg/handlers/jsonl.go"],
 [("n-gram lookup and ranking", "src/db/database.ts query (search)")],
 ["records yielded by Database.query with search"])

prop("C19", "N-gram tokenization is a fixed function of the text",
 "Tokenizing a phrase yields the lower-cased ASCII-folded n-grams of its words with their positions, identically in the indexer and in the browser client.",
 ["inputs"], "every unicode string and n-gram length",
 "Tests fix some dozens of phrases.",
 ["pkg/ngram/tokenizer.go", "src/ngram/tokenizer.ts"], [("normalisation and windowing", "pkg/ngram/tokenizer.go BuildNgram")],
 ["token lists"])

prop("C20", "Query validation accepts exactly well-formed queries",
 "A query object is accepted if and only if its conditions name an existing field, use a known operator, have consistent types and an ordering on the same field.",
 ["inputs"], "every query object",
 "Tests fix some dozens of query objects.",
 ["src/db/query-validation.ts", "src/db/query-builder.ts"], [("validateQuery", "src/db/query-validation.ts")],
 ["thrown errors"])

prop("C21", "Variable-length sizes and type names are computed consistently",
 "The computed size of a variable-length integer equals its encoded length, and the type reported for a field lists exactly the types stored for it.",
 ["inputs"], "every 64-bit integer and every field type",
 "Tests sample random integers and fixed type sets.",
 ["pkg/encoding/sizeVarint.go", "pkg/appendable/appendable.go"], [("SizeVarint", "pkg/encoding/sizeVarint.go")],
 ["returned values"])

prop("C22", "The vector index persists every vector and its neighbour list",
 "For any sequence of vectors added to a vector index, interleaved with reopenings of the storage and storage errors during additions: adding a vector of the right dimension to healthy storage never fails; every vector that was acknowledged is found under its id bit for bit, now and after reopening, and so is the list of its neighbours as it was when it was added; the lists name other stored vectors only, with no vector in its own list, each with the highest level on which the two are linked; and when the search breadth and degree bounds are at least the number of vectors, each list holds exactly the nearest of the vectors added before. After an addition that failed, lookups may fail but never return another vector or other values.",
 ["inputs", "schedules", "fault_sequences"],
 "every order of additions with repeated and equidistant vectors, every level draw, every reopening and placement of storage errors",
 "The tests add a few vectors to fresh storage once.",
 ["pkg/vectorpage/manager.go", "pkg/hnsw/hnsw.go", "pkg/btree/btree.go", "pkg/bptree/bptree.go", "pkg/linkedpage/linkedpage.go"],
 [("AddNode", "pkg/vectorpage/manager.go")],
 ["vectors and neighbour lists read back from the two trees"])

prop("C23", "Updating an index costs in proportion to what is appended",
 "For any history of appends, synchronizations and reopenings, the number of storage operations of opening an index, of a synchronization without new records and of a lookup does not grow with the number of records already indexed beyond the depth of the trees; a synchronization takes storage operations in proportion to the number of new values times the depth of the trees and reads no data that was indexed before other than values that keys of the index refer to; the index grows in proportion to the values it holds, and a synchronization or reopening without new records does not grow it at all.",
 ["histories", "inputs"],
 "every history of appends, synchronizations, reopenings and lookups over data with few and many fields and records",
 "No test counts storage operations; benchmarks measure time on one input.",
 ["pkg/appendable/index_file.go", "pkg/appendable/appendable.go", "pkg/bptree/bptree.go", "pkg/bptree/traversal.go", "pkg/linkedpage/linkedpage.go", "pkg/pagefile/pagefile.go", "pkg/handlers/jsonl.go", "pkg/handlers/csv.go"],
 [("resuming at the recorded end of data", "pkg/handlers/jsonl.go, pkg/handlers/csv.go"), ("insertion along one path", "pkg/bptree/bptree.go Insert")],
 ["storage operations counted at io.ReadWriteSeeker", "size of the index"])

prop("C24", "A query transfers in proportion to its answer, not to the data",
 "For any published index and any query or search on it, the client asks the server only for the list of fields, the pages on the way to and across the answer, the records it yields and, where the keys are in the data file, the keys of those pages: a number of index pages bounded by the depth of the tree and the number of records yielded, and a number of bytes of the data bounded by the records yielded. A limit, or a consumer that stops early, ends the transfer; nothing is asked for in the background; opening a data set and listing its fields asks for the list of fields only.",
 ["schedules", "inputs", "configurations"],
 "every query, ordering, limit and early end over data sets from a few to tens of thousands of records, every delivery order, in both range-request modes",
 "No test runs a query against an index over a transport, let alone counts what it transfers.",
 ["src/db/database.ts", "src/db/key-range.ts", "src/bptree/bptree.ts", "src/bptree/traversal.ts", "src/bptree/node.ts", "src/file/index-file.ts", "src/file/multi.ts", "src/file/data-file.ts", "src/resolver/range-request.ts"],
 [("traversal to the first key of the range", "src/bptree/traversal.ts"), ("lazy iteration up to the limit", "src/db/database.ts")],
 ["ranges requested by the client"])

prop("C25", "A data file shorter than its index is refused",
 "When the data file given to a synchronization is shorter than the data indexed already (it was truncated, or a copy of it is not complete), the synchronization reports an error, and the command a non-zero status, and no byte of the index changes; an iteration or lookup that needs a missing value reports an error and never yields a wrong entry, while entries whose keys do not need the missing data are still found; and nothing panics. With the whole file back, the index is complete and exact and synchronizations go on as before.",
 ["histories", "fault_sequences", "inputs"],
 "every history of appends, synchronizations and restarts, and every length the data file can be cut to",
 "No test gives an index a data file other than the one it was made from.",
 ["pkg/handlers/jsonl.go", "pkg/handlers/csv.go", "pkg/bptree/node.go", "pkg/bptree/bptree.go", "pkg/bptree/traversal.go", "cmd/main.go"],
 [("comparison of the recorded end of data with the file", "pkg/handlers/jsonl.go, pkg/handlers/csv.go"), ("reading keys from the data file", "pkg/bptree/node.go UnmarshalBinary")],
 ["return value of Synchronize and exit status", "bytes of the index", "entries iterated and looked up"])

prop("C26", "Range resolvers return exactly the requested bytes",
 "For any calls of concurrent callers to a range resolver, each with any number of ranges of at least one byte in any order, repeated or overlapping, in both range-request modes and with every legal response of the server in any delivery order: each range of a call is answered, in its place, with exactly the bytes from its first to its last byte inclusive and with the total length of the file, or the call fails; without faults it fails only if a range reaches beyond the end of the file (never answered with fewer bytes) or if an expected length differs from the length of the file, which is always reported, as a LengthIntegrityError. A cached resolver gives the same answers, does not ask again for a range inside one that it has, does not remember a failure, and is not affected by what its callers do with the bytes they were given.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every sequence of concurrent calls, every legal form and order of responses, every placement of transport faults",
 "The tests parse single multipart bodies; none calls a resolver over a transport, and none covers the cache.",
 ["src/resolver/range-request.ts", "src/resolver/multipart.ts", "src/resolver/cache.ts", "src/resolver/resolver.ts"],
 [("requestRanges", "src/resolver/range-request.ts"), ("cache", "src/resolver/cache.ts"), ("RangeResolver", "src/resolver/resolver.ts")],
 ["bytes, total lengths and errors given to callers", "requests sent"])

prop("C27", "Every page of an index file is well formed and has exactly one use",
 "After any history of records, synchronizations and restarts, also ones in which a synchronization was interrupted by the death of the process or by failing storage, the bytes of the index file follow its layout: a whole number of pages; a list of free pages, up to its first empty entry, that names pages of the file, each once; a chain of slot pages that are full except for the last; and for every slot a tree whose nodes lie within their pages, with keys in ascending order and within the limits set by the nodes above, and with all leaves at the same depth. No page has two uses, and a free page has none. As long as nothing was interrupted, no page is lost either (every page is in use or free), and every tree holds as many keys as its index has entries.",
 ["histories", "crash_points", "fault_sequences"],
 "every history of appends, synchronizations, restarts and insertions, with every storage write or operation of a synchronization as a stopping point",
 "Tests read what they stored through the code that stored it; none looks at the file as a whole, and none after an interruption.",
 ["pkg/pagefile/pagefile.go", "pkg/linkedpage/linkedpage.go", "pkg/bptree/bptree.go", "pkg/bptree/node.go"],
 [("page allocation", "pkg/pagefile/pagefile.go NewPage, FreePage"), ("slot pages", "pkg/linkedpage/linkedpage.go AddNext"), ("splitting of nodes", "pkg/bptree/bptree.go Insert")],
 ["bytes of the index file between calls"])

prop("C28", "Converting a JSONL file yields all of its records and never harms the file",
 "When the conversion script (scripts/jsonl2json) reports success, the output, the file of the same name with the extension .json, is a JSON array of exactly the values on the lines of the input, in their order, whatever the output held before. Whatever happens, the input and every other file stay as they are: also when the input is not named .jsonl, when a line is malformed, or when the output cannot be written. A malformed line, a missing or unreadable input and an output that cannot be written in full are reported by the exit status, and a readable, well-formed .jsonl file on healthy storage is converted. (Numbers that fit no 64-bit integer are kept as double precision numbers.)",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of conversions of a growing or rewritten file of arbitrary values, every input name, and a storage limit at every size of the output",
 "The script has no tests.",
 ["scripts/jsonl2json/src/main.rs"],
 [("name of the output", "scripts/jsonl2json/src/main.rs main"), ("one value per line", "scripts/jsonl2json/src/main.rs main")],
 ["exit status", "output file decoded independently", "bytes of every file in the directory"])

prop("C29", "The client answers exactly while the data file grows, and never wrongly from copies that end early",
 "For any published index and any concurrent queries, searches and listings of the fields by one client: while the data file grows by further records (complete or not), so that responses state different lengths of the file, the client yields exactly the records that the index covers, each once, in order and with the selected fields, as if the file had not changed. While some responses come from copies of the data or index file that end early (an upload in progress, a cache that is behind), a query or search yields only correct records in the correct order and either completes exactly or fails with an error in a bounded number of steps, whether a page, a key or a record lies beyond the end; one that needs nothing beyond the end completes. Once the whole files are served, the same client answers exactly.",
 ["schedules", "fault_sequences", "histories", "inputs"],
 "every growth of the data file between any two requests, every placement and length of a copy that ends early, every delivery order and legal form of the responses",
 "The tests never run a query over a transport, and the files they use never change.",
 ["src/file/data-file.ts", "src/file/multi.ts", "src/bptree/bptree.ts", "src/bptree/node.ts", "src/resolver/range-request.ts"],
 [("ranges of records", "src/file/data-file.ts get"), ("keys in the data file", "src/bptree/node.ts"), ("ranges and their responses", "src/resolver/range-request.ts")],
 ["records yielded by queries and searches", "errors of queries"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
