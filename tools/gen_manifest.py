#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection, seeded search: "
C = {}
C["C01"] = ("append/synchronize/restart histories cut at arbitrary bytes, refinement against an executable model of the index",
  "Sampled. Real indexer code over a simulated disk; the model is written from the documented record semantics and shares no code with the indexer. Tokenizer input is restricted to characters without multi-letter compatibility expansions.")
C["C02"] = ("append/synchronize/restart histories over CSV rows, refinement against an executable model of the index",
  "Sampled. Cells without embedded newlines; headers of printable characters.")
C["C03"] = ("the same history on different storages and batchings, compared byte by byte or logically",
  "Sampled. Compares three kinds of storage, one of them a real memory-mapped file in a scratch directory.")
C["C04"] = ("operation sequences with reopening on a simulated disk, refinement against a sorted map",
  "Sampled. Widths up to 1000 bytes (a page holds at least four keys).")
C["C05"] = ("storage errors and short reads placed at seeded and swept positions inside every kind of call",
  "Sampled positions; failing reads, writes, seeks and growth, transient and persistent.")
C["C06"] = ("process death and failing storage at seeded and swept positions inside synchronizations, followed by recovery",
  "Writes become durable in the order they are issued, whole: no torn page, no loss of cached writes at power failure (the code never syncs, and the statement is about process death and failing storage).")
C["C07"] = ("malformed records with repeated failing synchronizations, restarts and repairs, refinement against the model",
  "Sampled. The repair replaces the malformed line in place; records before it stay as they are.")
C["C08"] = ("allocation histories with reopening and storage faults, refinement against a page model",
  "Sampled, with histories long enough to wrap the free list many times.")
C["C09"] = ("slot histories with reopening and storage faults, refinement against a slot model",
  "Sampled. One listed finding about raw metadata of 253 to 255 bytes.")
C["C10"] = ("operation sequences on scratch files with kernel-enforced growth and remap failures, refinement against a byte model",
  "Real kernel calls; a full disk is simulated by the file-size limit and exhausted address space by the address-space limit of the process.")
C["C11"] = ("interleavings of growth, synchronization, publication and reads of old copies, refinement against the model",
  "Sampled.")
C["C12"] = ("sequences of runs of the real command under kernel-enforced storage limits and bad inputs, refinement against the model",
  "The command runs as a child process in a scratch directory; it is single-threaded with respect to the index, so a run is determined by its inputs and the limit.")
C["C13"] = ("histories with opens by the wrong handler or version at seeded points, with short reads",
  "Sampled.")
C["C14"] = ("insert/lookup/reopen sequences with storage faults on a simulated disk, refinement against a map",
  "Sampled. One listed finding about vectors of more than a third of a page. After a failed insertion other vectors may be out of reach but never wrong.")
C["C15"] = ("insertion orders and level draws decided by the seed, compared with brute-force search",
  "Sampled. The nondeterminism is the level draw; the code has no I/O.")
C["C16"] = ("concurrent queries of the real client over a simulated network with seeded delivery order, chunking and server habits, compared with the records themselves",
  "Sampled. Indexes are made by the real indexer; JSONL only. Timers, clock and randomness of the client are virtual.")
C["C17"] = ("transport faults placed at seeded requests of concurrent queries over a simulated network, with bounded-progress and recovery checks",
  "Sampled. Thirty-odd kinds of faults; a response that agrees with the request in status, headers and length is taken to carry the right bytes, and a server that stops answering is outside the model because the client sets no time limits.")
C["C18"] = ("concurrent and repeated searches of the real client over a simulated network, compared with an independent statement of the tokenizer over the records",
  "Sampled. Text includes characters outside ASCII; the tokenizer's windowing is stated independently in the oracle.")
C["C22"] = ("vectors added through the page manager with seeded level draws, reopenings and storage faults, compared with a map and with brute-force search",
  "Sampled. The neighbour graph is in memory only (the code rebuilds nothing on opening), so a reopened manager starts a new graph over the stored vectors' pages, as the code does.")
C["C23"] = ("append/synchronize/restart/lookup histories with storage operations counted at the simulated disk",
  "Sampled. The limits are several times what the code needs: they exclude work that grows with what is there, not a slower constant.")
C["C24"] = ("concurrent and abandoned queries of the real client over a simulated network, with every requested range accounted to the answers",
  "Sampled, up to 65000 records and sixty fields. The limits leave room for reading a page again or some records ahead.")
C["C25"] = ("append/synchronize/restart histories with synchronizations, iterations and lookups over data files cut at seeded places, refinement against the model",
  "Sampled. The missing part is at the end of the file; data that was changed in place is outside the statement.")
C["C26"] = ("concurrent calls of the real range resolvers over a simulated network with seeded delivery order, server habits and faults, compared with the bytes of the file",
  "Sampled, files up to 5 GiB (of zeros but for the last part). Servers that do not state the total length may be answered with either result where an expected length is given; callers of a cache may share the failure of a request that they share.")
C["C27"] = ("append/synchronize/restart/crash histories on simulated storage, with the bytes of the index file taken apart by an independent reader after every step and at swept crash points",
  "Sampled; single page writes are not torn. Covers the trees and slots of document indexes and single trees of every key width, not the vector store.")
C["C28"] = ("sequences of runs of the real script on scratch files under kernel-enforced storage limits, bad inputs and odd names, compared with an independent decoding of the lines",
  "Sampled. The script runs as a child process in a scratch directory; it is single-threaded, so a run is determined by its inputs and the limit. No lone surrogates, no numbers beyond double precision, nesting below the decoder's limit.")
C["C29"] = ("queries, searches and listings of the real client over a simulated network whose files grow between requests or are served from copies that end early, compared with an evaluator over the records the index covers",
  "Sampled. Files change at their end only, as appending does; an index that is replaced by a later one under a client that has read parts of it is outside the statement.")
NA = {
 "C19": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide (its use by the indexer and the client is covered by C01 and C18)",
 "C20": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide",
 "C21": "a pure function of its input: no schedule, clock, fault or interleaving for a simulator to decide",
}
checks = [dict(property=k, quick_cmd="./run.sh check " + k, thorough_cmd="VERIF_TIER=thorough ./run.sh check " + k,
  evidence_file="evidence/%s.json" % k, technique=T + t, level="exploration", level_note=n) for k, (t, n) in sorted(C.items())]
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks,
  not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in C],
  notes="No hooks in /repo: the code's own seams (io.ReadWriteSeeker for the index storage, byte slices for the data file, math/rand's global source, fetch) are enough.")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
assert sorted(ids) == sorted([c["property"] for c in checks] + [x["property"] for x in m["not_applicable"]])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
