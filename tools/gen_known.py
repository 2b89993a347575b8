#!/usr/bin/env python3
"""Source of /verif/known_findings.json (run: python3 tools/gen_known.py)."""
import json, os
F = [
 dict(id="KF1", property="C14", signature="vector-over-a-third-of-a-page",
      what="inserting a third vector between two others panics (\"writing empty node\") when a vector needs more than a third of a page (dimensions of about 345 to 1000)",
      scenario=dict(prop="C14", seed=9325079065902578850, cfg=dict(dim=687, style=0), ops=[dict(k="ins"), dict(k="ins", n=2), dict(k="ins", n=1)])),
 dict(id="KF2", property="C09", signature="slot-metadata-over-252-bytes",
      what="SetMetadata accepts 253 to 255 bytes, which spill into the root pointer of the next slot (an existing test requires 255 bytes to be accepted; indexes do not produce such metadata any more)",
      scenario=dict(prop="C09", seed=4814346350290089360, cfg=dict(short=0, style=0), ops=[dict(k="add"), dict(k="meta", l=253), dict(k="add")])),
]
X = [
 ("C04", "4568e6e", "iteration stopped at once when the search key fell between the last key of one leaf and the first of the next"),
 ("C05", "d844f09", "a failing read of the tree root was taken for an empty tree, so lookups reported success with no results and insertions replaced the tree"),
 ("C04", "0ab207b", "Contains of an empty value was true on a tree without such a value"),
 ("C01", "5b2d1a9", "the data range of a value following whitespace before its colon was shifted"),
 ("C08", "03a7edd", "persisting the free list panicked once the ring wrapped around"),
 ("C14", "0b02d84", "vectors were read back with other bits than were inserted"),
 ("C09", "e8714a1", "field names of more than 236 bytes overwrote the root pointer of the next index"),
 ("C05", "06d81ee", "short reads of the index storage were taken for complete pages"),
 ("C13", "06d81ee", "storage returning short reads made format and version checks read garbage"),
 ("C08", "7c69dc1", "FreePage(0) put the free list page itself on the free list"),
 ("C08", "c1b9328", "a failed release or allocation was recorded in memory as if it had happened"),
 ("C07", "cc1a695", "a malformed JSONL record left entries behind that made every later synchronization fail, even after the repair"),
 ("C02", "ad9c00c", "resuming a CSV index named columns after the first new row"),
 ("C07", "6950195", "a malformed CSV row left entries behind that made every later synchronization fail"),
 ("C02", "e1e9885", "CSV indexes never counted their entries"),
 ("C02", "866d2c3", "data ranges of cells following quoted cells were wrong"),
 ("C06", "811d092", "a crash between the writes of a b+tree split lost the keys of the right half"),
 ("C10", "86389f5", "positioned access outside of a memory-mapped file, or writing one opened read-only, crashed the process"),
 ("C10", "bfe523b", "growing a memory-mapped file returned the size of the file as the count and moved the position beyond the end"),
 ("C16", "9c9765b", "the client's iteration ended early when the first match was in the next leaf of the tree"),
 ("C16", "9fc12a2", "first and last key of a tree with a single leaf were missed by the client"),
 ("C18", "48bb19c", "the client failed on a tree without entries"),
 ("C16", "72cf0e0", "descending ranges skipped the last entry, and > included equal keys"),
 ("C16", "23c3468", "the limit of a query was ignored"),
 ("C17", "8186262", "a truncated multipart body was read forever or accepted"),
 ("C16", "674dc3b", "legal multipart responses were rejected"),
 ("C17", "f75cdf5", "responses were accepted without the bytes that were requested"),
 ("C16", "29750ad", "a range response without Content-Type was rejected"),
 ("C17", "d1ccf17", "a failed request made every later query fail"),
 ("C18", "427c5b0", "a search yielded a record once per occurrence of each token"),
 ("C18", "f6e3ae8", "searches for text outside ASCII missed records or tokens"),
 ("C16", "aecd276", "ranges of numbers with negative values were incomplete and out of order"),
 ("C16", "742c5b4", "several conditions on a field yielded records that satisfy only one of them"),
 ("C16", "e0811c7", "the client truncated offsets of 2 GiB and more to 32 bits"),
 ("C16", "7f81a71", "selecting a field named like a member of Object.prototype yielded that member, or changed the prototype of the result"),
 ("C22", "90c8ed9", "a vector could be linked to itself while it was inserted, so that it was in its own neighbour list (also C15)"),
 ("C22", "e3de667", "adding a vector whose neighbour list equals that of another failed with key already exists, after the vector itself was stored"),
 ("C25", "1bcadc5", "reading a key beyond the end of a truncated data file panicked"),
 ("C25", "dd2508f", "synchronizing with a data file shorter than its index panicked (CSV) or succeeded (JSONL)"),
 ("C26", "e04d95e", "a range of a single byte was refused in multipart mode"),
 ("C26", "bfd5a36", "the expected length of a range was ignored in multipart mode"),
 ("C26", "6dc3d12", "a cached resolver dropped the last byte of a range inside a cached one, answered only the first range of a call, ignored expected lengths and remembered failures"),
 ("C01", "1219f07", "a valid record was refused when an ngram of a search field had the offset of the same ngram in an earlier value, whose decomposed text is longer than its bytes"),
 ("C09", "14ff2a8", "IsEmpty reported the opposite"),
 ("C22", "522d2cb", "a neighbour on several levels was recorded under the lowest of them only"),
 ("C28", "edbdf1c", "converting a file not named .jsonl replaced it with the output"),
 ("C07", "719e2d7", "a line with something after its object, a second object say, was accepted and the rest ignored"),
]
out = dict(findings=F, fixed=["fixed: property=%s %s %s" % x for x in X])
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w"), indent=1)
