package main

var realGo = []string{"pkg/appendable", "pkg/handlers", "pkg/bptree", "pkg/linkedpage", "pkg/metapage", "pkg/pagefile", "pkg/ngram", "pkg/pointer"}
var stubDisk = []string{"index storage (simulated disk behind io.ReadWriteSeeker)", "data file (byte slice, cut where the appender was interrupted)"}

var props = map[string]propInfo{
	"C01": {propDocs{0}, 4000, "A history of JSONL records, partial flushes, synchronizations, reopenings and probes drawn from the seed; non-trivial: at least two records were synchronized.", realGo, stubDisk},
	"C02": {propDocs{1}, 4000, "A history of CSV rows, partial flushes, synchronizations, reopenings and probes drawn from the seed; non-trivial: at least two rows were synchronized.", realGo, stubDisk},
	"C03": {propC03{}, 3000, "A history run on two kinds of storage and compared with a single synchronization of the final data; non-trivial: at least two records.", realGo, stubDisk},
	"C05": {propC05{}, 5000, "A history in which opens, reads, lookups and synchronizations hit storage faults; non-trivial: at least two records were synchronized.", realGo, stubDisk},
	"C06": {propC06{}, 6000, "A history in which synchronizations are interrupted by a crash or failing storage and retried; non-trivial: at least two records were synchronized.", realGo, stubDisk},
	"C13": {propC13{}, 12000, "A history with attempts to open the index with another format or version, and files that are no index; non-trivial: at least two records were synchronized.", realGo, stubDisk},
	"C07": {propC07{}, 8000, "A history with malformed records that are repaired later; non-trivial: at least two records were synchronized.", realGo, stubDisk},
	"C25": {propC25{}, 5000, "A history with synchronizations, iterations and lookups that are given a data file shorter than what is indexed; non-trivial: at least two records.", realGo, stubDisk},
	"C11": {propC11{}, 8000, "A history with published copies of the index read later, and garbage after the last record; non-trivial: at least two records.", realGo, stubDisk},
}

func init() {
	tree := []string{"pkg/bptree", "pkg/linkedpage", "pkg/pagefile", "pkg/pointer"}
	disk := []string{"index storage (simulated disk behind io.ReadWriteSeeker)"}
	props["C04"] = propInfo{propC04{}, 6000, "A sequence of insertions, duplicates, lookups, walks and reopenings on one tree, with the width, key lengths and order drawn from the seed; non-trivial: at least two keys.", tree, append(disk, "data file (fixed byte arena)")}
	props["C08"] = propInfo{propC08{}, 3000, "A sequence of allocations, releases, refused calls, faults and reopenings; non-trivial: at least two pages live at the end.", []string{"pkg/pagefile"}, disk}
	props["C09"] = propInfo{propC09{}, 50000, "A sequence of slot creations, root and metadata updates and reopenings, on raw slots or through FindOrCreateIndex; non-trivial: at least two slots.", []string{"pkg/linkedpage", "pkg/pagefile", "pkg/appendable"}, disk}
	props["C14"] = propInfo{propC14{}, 3000, "A sequence of insertions, lookups, faults and reopenings on one vector store; non-trivial: at least two vectors.", []string{"pkg/btree", "pkg/linkedpage", "pkg/pagefile"}, disk}
	props["C10"] = propInfo{propC10{}, 60000, "A sequence of reads, writes, positioned reads and writes, seeks, reopenings and writes by another descriptor on a memory-mapped file, with failing growth; non-trivial: a non-empty file and at least three operations.", []string{"pkg/mmap", "the kernel's file and memory-mapping calls, on scratch files"}, []string{"resource limits of the process stand in for a full disk and exhausted address space"}}
	props["C12"] = propInfo{propC12{}, 3000, "A sequence of runs of the command over a growing data file with limits, bad arguments and malformed records; non-trivial: at least two records acknowledged.", []string{"cmd/main.go as a process", "all Go packages it uses", "the kernel's file calls, on scratch files"}, []string{"file-size limit of the child process stands in for a full disk"}}
	props["C15"] = propInfo{propC15{}, 80000, "A sequence of vector insertions and searches with the level draws decided by the seed; non-trivial: at least three vectors. (This property has no I/O; its nondeterminism is the level draw.)", []string{"pkg/hnsw"}, []string{"math/rand's global source (seeded)"}}

	ts := []string{"src (the TypeScript client, bundled from the working tree)", "Node's Response, Headers and stream classes", "the Go indexer that makes the index"}
	tsStub := []string{"fetch and the servers behind it (simulated network)", "setTimeout, Date.now, Math.random (virtual)"}
	props["C16"] = propInfo{nil, 11000, "A data set indexed by the Go code, queries of one to four concurrent callers over a server whose legal habits (parts, order, coalescing, full bodies, chunk sizes, header forms) and delivery order are drawn from the seed; non-trivial: a query yielded a record.", ts, tsStub}
	props["C17"] = propInfo{nil, 8000, "As C16 and C18, with faults on some requests, and queries repeated once the faults stopped; non-trivial: a fault fired or a query yielded a record.", ts, tsStub}
	props["C29"] = propInfo{nil, 6000, "As C16 and C18, over a data file that grows by further records between the requests, and with some responses from copies of the data or the index that end early, and queries repeated once the whole files are served; non-trivial: a query yielded a record or a response was cut by a copy's end.", ts, tsStub}
	props["C24"] = propInfo{nil, 2400, "A data set indexed by the Go code, up to 65000 records or sixty fields, and fault-free queries and searches over a simulated network as in C16; the ranges each query asks for are compared with its answer; non-trivial: a query yielded a record.", ts, tsStub}
	props["C26"] = propInfo{nil, 80000, "Calls of one to four concurrent callers to a range resolver, plain or cached, over a server whose legal habits, faults and delivery order are drawn from the seed, and the same calls once the faults stopped; non-trivial: a call was answered or a fault fired.", []string{"src/resolver (bundled from the working tree)", "Node's Response, Headers and stream classes"}, tsStub}
	props["C18"] = propInfo{nil, 4000, "A data set with text fields indexed by the Go code and searches of one to four concurrent callers over a simulated network as in C16; non-trivial: a search yielded a record.", ts, tsStub}
}
