From 4568e6e89343e150c7f3d995ddda1cd850c8e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 01/48] fix: b+tree iterator stops early when the search key
 falls between two leaves

Iter positions itself at the end of a leaf when the search key is greater than
every key of that leaf but smaller than the separator of the next one. Next()
then reported the end of the tree although later leaves hold keys, so Find,
Contains and range scans missed them.
---
 pkg/bptree/bptree.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..7b919d5 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -111,9 +111,15 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		if p.records[0].index < p.records[0].node.NumPointers() {
+			return true
+		}
+		// the key sorts after every key in this leaf, so the next key, if there
+		// is one, is the first key of the following leaf.
+		p.records[0].index--
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From d844f09f3c4013396735a73ca3bcf22d1687111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/48] fix: b+tree treats an unreadable root as an empty tree

An error while reading the root pointer was dropped and the tree was taken to be
empty: lookups reported success without results and an insertion replaced the
whole tree by a single new node.
---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 7b919d5..c31c583 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -24,7 +24,7 @@ type BPTree struct {
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
 	if err != nil || mp.Length == 0 {
-		return nil, mp, nil
+		return nil, mp, err
 	}
 	root, err := t.readNode(mp)
 	if err != nil {
-- 
2.43.0


From 0ab207b0f1012b40b42f5f3ad83adecc0902347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 03/48] fix: b+tree reports an empty key as present when
 nothing is found

Find returns a zero key when there is no key at or after the search key, which
Contains mistook for a stored empty value (the null index stores those).
---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index c31c583..32720cf 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -155,12 +155,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From 5b2d1a9c132d428608b010bb61230f3fce81d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 04/48] fix: JSONL values after whitespace before the colon get
 a wrong data range

The indexer assumed that the colon directly follows the key, so for {"a" : 1} the
stored range began at the colon and could not be parsed back: keys were compared
as nil and lookups failed.
---
 pkg/handlers/jsonl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..37b6523 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,9 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			// skip the :, which may be preceded by whitespace
+			keyEnd := dec.InputOffset()
+			fieldOffset := keyEnd + int64(bytes.IndexByte(r[data.Offset+uint64(keyEnd):], ':')) + 1
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From 03a7edde12c93643b4f6559c859b3266b363da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 05/48] fix: persisting free pages panics once the free list
 wraps around

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From 0b02d842b39bc98d7d9a30aaebcf247eecbec137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/48] fix: vectors are corrupted when read back from the
 vector store

Vectors are written as IEEE 754 bits but were read back as integers converted to
float.
---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From e8714a18dd1c8a7dc8ed9436171db0aadb7d7eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 07/48] fix: long field names overwrite the root pointer of the
 next index

Linked page slots are 265 bytes apart, but a root pointer, a length byte and up to
255 bytes of metadata were written to them, so the metadata of an index whose
field name is longer than 236 bytes could spill into its neighbour's root pointer,
and metadata of 255 bytes could not be read back at all. A name longer than 256
bytes left a slot without metadata behind and made the index unusable. Refuse
such names before a slot is added.
---
 pkg/appendable/index_file.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..997ef5e 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -13,6 +13,12 @@ import (
 
 const CurrentVersion = 1
 
+// maxFieldNameLength is the longest field name whose IndexMeta always fits in a
+// linked page slot: slots are 8 + 1 + 256 bytes apart and begin with a 12 byte
+// root pointer and a length byte, and IndexMeta needs up to 16 bytes besides the
+// name.
+const maxFieldNameLength = 8 + 1 + 256 - 12 - 1 - 16
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -170,6 +176,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > maxFieldNameLength {
+		return nil, nil, fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
-- 
2.43.0


From 06d81ee7eef1cd417b3b85dc6e2f34e497b334e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 08/48] fix: short reads of the index storage are taken for
 complete pages

Reader may return fewer bytes than asked for. Pages, metadata and the free page
list were read by a single Read whose count was ignored, so a short read decoded
zeros as index contents, and opening a file shorter than a page overwrote it with
an empty free list.
---
 pkg/bptree/bptree.go         | 2 +-
 pkg/btree/btree.go           | 2 +-
 pkg/linkedpage/linkedpage.go | 4 ++--
 pkg/pagefile/pagefile.go     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 32720cf..2257e4e 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -172,7 +172,7 @@ func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
 	}
 	node := &BPTreeNode{Data: t.Data, DataParser: t.DataParser, Width: t.Width}
 	buf := make([]byte, t.PageFile.PageSize())
-	if _, err := t.PageFile.Read(buf); err != nil {
+	if _, err := io.ReadFull(t.PageFile, buf); err != nil {
 		return nil, err
 	}
 	if err := node.UnmarshalBinary(buf); err != nil {
diff --git a/pkg/btree/btree.go b/pkg/btree/btree.go
index 6634536..dff7785 100644
--- a/pkg/btree/btree.go
+++ b/pkg/btree/btree.go
@@ -43,7 +43,7 @@ func (t *BTree) readNode(offset uint64) (*BTreeNode, error) {
 	node := &BTreeNode{Width: t.Width, VectorDim: t.VectorDim}
 	buf := make([]byte, t.PageFile.PageSize())
 
-	if _, err := t.PageFile.Read(buf); err != nil {
+	if _, err := io.ReadFull(t.PageFile, buf); err != nil {
 		return nil, err
 	}
 
diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..dee6805 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -127,7 +127,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 		return nil, err
 	}
 	buf := make([]byte, 4+m.rws.SlotSize())
-	if _, err := m.rws.Read(buf); err != nil {
+	if _, err := io.ReadFull(m.rws, buf); err != nil {
 		return nil, err
 	}
 	// the first byte represents the length
@@ -312,7 +312,7 @@ func NewMultiBPTree(t pagefile.ReadWriteSeekPager, page int) (*LinkedPage, error
 	if _, err := t.Seek(offset, io.SeekStart); err != nil {
 		return nil, err
 	}
-	if _, err := t.Read(make([]byte, t.PageSize())); err != nil {
+	if _, err := io.ReadFull(t, make([]byte, t.PageSize())); err != nil {
 		if err == io.EOF {
 			// the page doesn't exist, so we need to create it
 			if err := lmp.reset(0); err != nil {
diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 1c42c4e..7bf0445 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -46,7 +46,7 @@ func NewPageFile(rws io.ReadWriteSeeker) (*PageFile, error) {
 		return nil, err
 	}
 	buf := make([]byte, pageSizeBytes)
-	_, err := rws.Read(buf)
+	_, err := io.ReadFull(rws, buf)
 	if err != nil && err != io.EOF {
 		return nil, err
 	}
-- 
2.43.0


From 7c69dc168d1d42b9cd6e120d5e7347ef7ce09649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 09/48] fix: freeing the first page makes the allocator hand
 out the free list itself

Page 0 holds the free list. Once released, it was handed out like any other page
and its next owner overwrote the list.
---
 pkg/pagefile/pagefile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index 7bf0445..e4ab717 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -182,6 +182,9 @@ func (pf *PageFile) FreePage(offset int64) error {
 	if offset%int64(pf.pageSize) != 0 {
 		return errors.New("offset is not a multiple of the page size")
 	}
+	if offset <= 0 {
+		return errors.New("the first page is reserved and cannot be freed")
+	}
 	if pf.freePageCount == len(pf.freePageIndexes) {
 		return errors.New("free page index is full")
 	}
-- 
2.43.0


From c1b9328813548530ee641b2906c16d00cc6f9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/48] fix: failed page releases and allocations are recorded
 as if they happened

When the free list cannot be written, FreePage reports an error but the page was
handed out by a later NewPage although its owner still uses it. A NewPage that
fails to grow the file was counted as a page.
---
 pkg/pagefile/pagefile.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index e4ab717..22cc949 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -135,6 +135,7 @@ func (pf *PageFile) NewPage(buf []byte) (int64, error) {
 		return 0, errors.New("buffer is too large")
 	}
 
+	grow := false
 	// if there are free pages, return the first one
 	offset, err := pf.FreePageIndex()
 	if err != nil {
@@ -151,7 +152,7 @@ func (pf *PageFile) NewPage(buf []byte) (int64, error) {
 			return 0, err
 		}
 		offset = n
-		pf.lastPage++
+		grow = true
 	}
 
 	// if the offset is not a multiple of the page size, we need to pad the file
@@ -172,6 +173,9 @@ func (pf *PageFile) NewPage(buf []byte) (int64, error) {
 	if _, err := pf.ReadWriteSeeker.Write(page); err != nil {
 		return 0, err
 	}
+	if grow {
+		pf.lastPage++
+	}
 	if _, err := pf.ReadWriteSeeker.Seek(offset, io.SeekStart); err != nil {
 		return 0, err
 	}
@@ -196,11 +200,19 @@ func (pf *PageFile) FreePage(offset int64) error {
 	}
 
 	// push to the head
-	pf.freePageIndexes[pf.freePageHead] = offset
-	pf.freePageHead = (pf.freePageHead + 1) % len(pf.freePageIndexes)
+	head, previous := pf.freePageHead, pf.freePageIndexes[pf.freePageHead]
+	pf.freePageIndexes[head] = offset
+	pf.freePageHead = (head + 1) % len(pf.freePageIndexes)
 	pf.freePageCount++
 
-	return pf.writeFreePageIndices()
+	if err := pf.writeFreePageIndices(); err != nil {
+		// the caller is told that the page is still in use, so don't hand it out.
+		pf.freePageIndexes[head] = previous
+		pf.freePageHead = head
+		pf.freePageCount--
+		return err
+	}
+	return nil
 }
 
 func (pf *PageFile) PageSize() int {
-- 
2.43.0


From cc1a6955e0186fabfec95f26e23a019128b8fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 11/48] fix: a malformed JSONL record wedges the index for good

Synchronize indexed the fields of a record up to the malformation and returned
without recording how far it got, so all further attempts, also after the line was
repaired, failed with 'key already exists' and the index was stuck. Validate a
record before indexing any of it, and record the progress when one fails.
---
 pkg/appendable/index_file.go | 12 ++++-
 pkg/handlers/jsonl.go        | 91 ++++++++++++++++++++++++++++++++++--
 2 files changed, 96 insertions(+), 7 deletions(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 997ef5e..4a93c4d 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -19,6 +19,14 @@ const CurrentVersion = 1
 // name.
 const maxFieldNameLength = 8 + 1 + 256 - 12 - 1 - 16
 
+// ValidateFieldName returns an error if no index can be created for name.
+func ValidateFieldName(name string) error {
+	if len(name) > maxFieldNameLength {
+		return fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	}
+	return nil
+}
+
 type DataHandler interface {
 	bptree.DataParser
 	Synchronize(f *IndexFile, df []byte) error
@@ -176,8 +184,8 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
-	if len(name) > maxFieldNameLength {
-		return nil, nil, fmt.Errorf("field name is too long: %d bytes, at most %d are supported", len(name), maxFieldNameLength)
+	if err := ValidateFieldName(name); err != nil {
+		return nil, nil, err
 	}
 	next, err := mp.AddNext()
 	if err != nil {
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 37b6523..83bef9c 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -30,13 +30,35 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+
+	syncErr := j.synchronizeRecords(f, df, metadata)
+
+	// update the metadata. this is also necessary if a record failed because the
+	// records before it are indexed and must not be indexed again.
+	if err := f.SetMetadata(metadata); err != nil && syncErr == nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+
+	return syncErr
+}
+
+// synchronizeRecords indexes all records that are not yet indexed and updates
+// metadata to reflect the ones that are.
+func (j JSONLHandler) synchronizeRecords(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-			break
+			return nil
 		}
+		record := df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]
+
+		// make sure that the whole record can be indexed before any of it is.
+		if err := j.validateRecord(f, record); err != nil {
+			return err
+		}
+
 		// create a new json decoder
-		dec := json.NewDecoder(bytes.NewReader(df[metadata.ReadOffset:(metadata.ReadOffset + uint64(i))]))
+		dec := json.NewDecoder(bytes.NewReader(record))
 
 		// if the first token is not {, then return an error
 		if t, err := dec.Token(); err != nil || t != json.Delim('{') {
@@ -63,10 +85,69 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 
 		metadata.Entries++
 	}
+}
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
+func (j JSONLHandler) validateRecord(f *appendable.IndexFile, record []byte) error {
+	dec := json.NewDecoder(bytes.NewReader(record))
+
+	if t, err := dec.Token(); err != nil || t != json.Delim('{') {
+		return fmt.Errorf("expected '%U', got '%U' (only json objects are supported at the root)", '{', t)
+	}
+	if err := j.validateObject(f, dec, []string{}); err != nil {
+		return fmt.Errorf("failed to handle object: %w", err)
+	}
+	if t, err := dec.Token(); err != nil || t != json.Delim('}') {
+		return fmt.Errorf("expected '}', got '%v'", t)
+	}
+	return nil
+}
+
+// validateObject returns an error if handleJSONLObject cannot index the object.
+func (j JSONLHandler) validateObject(f *appendable.IndexFile, dec *json.Decoder, path []string) error {
+	for dec.More() {
+		token, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+		key, ok := token.(string)
+		if !ok {
+			return fmt.Errorf("expected string key, got '%v'", token)
+		}
+		value, err := dec.Token()
+		if err != nil {
+			return fmt.Errorf("failed to read token: %w", err)
+		}
+
+		name := strings.Join(append(path, key), ".")
+		if err := appendable.ValidateFieldName(name); err != nil {
+			return err
+		}
+		if _, ok := value.(string); !ok && f.IsSearch(name) {
+			return fmt.Errorf("expected string for search field '%v'", name)
+		}
+
+		switch value {
+		case json.Delim('['):
+			for depth := 1; depth > 0; {
+				t, err := dec.Token()
+				if err != nil {
+					return fmt.Errorf("failed to read token: %w", err)
+				}
+				switch t {
+				case json.Delim('['):
+					depth++
+				case json.Delim(']'):
+					depth--
+				}
+			}
+		case json.Delim('{'):
+			if err := j.validateObject(f, dec, append(path, key)); err != nil {
+				return fmt.Errorf("failed to handle object: %w", err)
+			}
+			if t, err := dec.Token(); err != nil || t != json.Delim('}') {
+				return fmt.Errorf("expected '}', got '%v'", t)
+			}
+		}
 	}
 
 	return nil
-- 
2.43.0


From ad9c00c98cd312da2a2f6ae2080a91e96ed8e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 12/48] fix: CSV columns are named wrongly after a resumed
 synchronization

A synchronization that continues an index took the column names from the existing
indexes, in the order in which they were created. With only the header row indexed
so far there are none, and the first data row was taken for the header; after rows
with missing or differently typed cells, or with repeated names, the order and
number of columns were wrong. Always take the names from the header row.
---
 pkg/handlers/csv.go | 61 ++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..7ddabb6 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -29,36 +29,49 @@ func (c CSVHandler) Format() appendable.Format {
 func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("Starting CSV synchronization")
 
-	var headers []string
-	var err error
-
 	metadata, err := f.Metadata()
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
+	if err := c.synchronizeRecords(f, df, metadata); err != nil {
+		return err
+	}
+
+	// update the metadata
+	if err := f.SetMetadata(metadata); err != nil {
+		return fmt.Errorf("failed to set metadata: %w", err)
+	}
+
+	slog.Debug("indexes", slog.Any("", f.Indexes))
+	slog.Debug("Ending CSV synchronization")
+	slog.Debug("=========")
+	return nil
+}
+
+// synchronizeRecords indexes all records that are not yet indexed and updates
+// metadata to reflect the ones that are.
+func (c CSVHandler) synchronizeRecords(f *appendable.IndexFile, df []byte, metadata *appendable.FileMeta) error {
+	// the header row is the first line of the data file.
+	headerLength := bytes.IndexByte(df, '\n')
+	if headerLength == -1 {
+		return nil
+	}
+
+	slog.Debug("Parsing CSV headers")
+	headers, err := csv.NewReader(bytes.NewReader(df[:headerLength])).Read()
 	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+		slog.Error("failed to parse CSV header", "error", err)
+		return fmt.Errorf("failed to parse CSV header: %w", err)
+	}
+	if metadata.ReadOffset == 0 {
+		metadata.ReadOffset = uint64(headerLength) + 1
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-			break
-		}
-
-		if len(headers) == 0 {
-			slog.Info("Parsing CSV headers")
-			dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
-			headers, err = dec.Read()
-			if err != nil {
-				slog.Error("failed to parse CSV header", "error", err)
-				return fmt.Errorf("failed to parse CSV header: %w", err)
-			}
-			metadata.ReadOffset += uint64(i) + 1
-			continue
+			return nil
 		}
 
 		dec := csv.NewReader(bytes.NewReader(df[metadata.ReadOffset : metadata.ReadOffset+uint64(i)]))
@@ -72,16 +85,6 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
 	}
-
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
-		return fmt.Errorf("failed to set metadata: %w", err)
-	}
-
-	slog.Debug("indexes", slog.Any("", f.Indexes))
-	slog.Debug("Ending CSV synchronization")
-	slog.Debug("=========")
-	return nil
 }
 
 func fieldRankCsvField(fieldValue any) int {
-- 
2.43.0


From 695019572556fb4ba59bff580e88785d80310838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 13/48] fix: a malformed CSV row wedges the index for good

Rows were indexed up to the malformation and the progress was not recorded, so all
further attempts, also after the row was repaired, failed with 'key already
exists'. Validate a row before indexing any of it, and record the progress when
one fails.
---
 pkg/handlers/csv.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 7ddabb6..4115461 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -34,14 +34,16 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
-	if err := c.synchronizeRecords(f, df, metadata); err != nil {
-		return err
-	}
+	syncErr := c.synchronizeRecords(f, df, metadata)
 
-	// update the metadata
-	if err := f.SetMetadata(metadata); err != nil {
+	// update the metadata. this is also necessary if a record failed because the
+	// records before it are indexed and must not be indexed again.
+	if err := f.SetMetadata(metadata); err != nil && syncErr == nil {
 		return fmt.Errorf("failed to set metadata: %w", err)
 	}
+	if syncErr != nil {
+		return syncErr
+	}
 
 	slog.Debug("indexes", slog.Any("", f.Indexes))
 	slog.Debug("Ending CSV synchronization")
@@ -64,6 +66,11 @@ func (c CSVHandler) synchronizeRecords(f *appendable.IndexFile, df []byte, metad
 		slog.Error("failed to parse CSV header", "error", err)
 		return fmt.Errorf("failed to parse CSV header: %w", err)
 	}
+	for _, header := range headers {
+		if err := appendable.ValidateFieldName(header); err != nil {
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
+	}
 	if metadata.ReadOffset == 0 {
 		metadata.ReadOffset = uint64(headerLength) + 1
 	}
@@ -160,14 +167,15 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("failed to read CSV record: %w", err)
 	}
 
+	// make sure that the whole record can be indexed before any of it is.
+	if len(record) > len(headers) {
+		slog.Error("Field index is out of bounds with headers", "fieldIndex", len(headers), "headers", slog.Any("headers", headers))
+		return fmt.Errorf("field index %d is out of bounds with header", len(headers))
+	}
+
 	cumulativeLength := uint64(0)
 
 	for fieldIndex, fieldValue := range record {
-		if fieldIndex >= len(headers) {
-			slog.Error("Field index is out of bounds with headers", "fieldIndex", fieldIndex, "headers", slog.Any("headers", headers))
-			return fmt.Errorf("field index %d is out of bounds with header", fieldIndex)
-		}
-
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
-- 
2.43.0


From e1e98851c54f5620b3985d79f9018efc2219805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 14/48] fix: CSV indexes do not count their entries

---
 pkg/handlers/csv.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 4115461..eb11371 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -91,6 +91,7 @@ func (c CSVHandler) synchronizeRecords(f *appendable.IndexFile, df []byte, metad
 		}
 
 		metadata.ReadOffset += uint64(i) + 1 // include the newline
+		metadata.Entries++
 	}
 }
 
-- 
2.43.0


From 866d2c344bf2616f9eadc7824ee9400399e93531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 15/48] fix: data ranges of CSV cells are wrong in rows with
 quoted cells

Ranges were computed from the lengths of the unquoted cells, so they were shifted
by the quotes of the cells before, lacked the quotes of the cell itself, and could
not be parsed back to the indexed value.
---
 pkg/handlers/csv.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index eb11371..1765653 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -138,7 +138,17 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
-	parsed, fieldType := InferCSVField(string(value))
+	field := string(value)
+	if strings.HasPrefix(field, "\"") {
+		// the data range of a quoted field includes the quotes.
+		record, err := csv.NewReader(bytes.NewReader(value)).Read()
+		if err != nil || len(record) != 1 {
+			slog.Error("failed to parse quoted field", "err", err)
+			return nil
+		}
+		field = record[0]
+	}
+	parsed, fieldType := InferCSVField(field)
 
 	switch fieldType {
 	case appendable.FieldTypeFloat64:
@@ -174,15 +184,23 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		return fmt.Errorf("field index %d is out of bounds with header", len(headers))
 	}
 
-	cumulativeLength := uint64(0)
+	// the record as it is in the data file, without a trailing carriage return
+	row := bytes.TrimSuffix(df[data.Offset:data.Offset+uint64(data.Length)], []byte{'\r'})
 
 	for fieldIndex, fieldValue := range record {
 		fieldName := headers[fieldIndex]
 
 		name := strings.Join(append(path, fieldName), ".")
 
-		fieldOffset := data.Offset + cumulativeLength
-		fieldLength := uint32(len(fieldValue))
+		// columns are one-based, and fields are followed by a comma or the end of
+		// the row.
+		_, column := dec.FieldPos(fieldIndex)
+		start, end := column-1, len(row)
+		if fieldIndex+1 < len(record) {
+			_, next := dec.FieldPos(fieldIndex + 1)
+			end = next - 2
+		}
+		raw := row[start:end]
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -192,15 +210,13 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		}
 
 		mp := pointer.MemoryPointer{
-			Offset: fieldOffset,
-			Length: fieldLength,
+			Offset: data.Offset + uint64(start),
+			Length: uint32(len(raw)),
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse(raw), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
-
-		cumulativeLength += uint64(fieldLength + 1)
 	}
 
 	return nil
-- 
2.43.0


From 811d0925dcf31d44dfda3f63e521876c925d7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 16/48] fix: an interrupted b+tree split loses the keys of the
 right node

A split truncated the left node in place before the right node was reachable
from its parent. If the insertion stopped in between, because the process died
or the storage was full, every key of the right node was lost without any error.
Write both halves to new pages and free the old one after the single write that
makes them reachable.
---
 pkg/bptree/bptree.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 2257e4e..b63f5f0 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -309,6 +309,10 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 		n.LeafPointers[j] = value
 	}
 
+	// replaced holds the pages of the nodes that were split, which are free once
+	// the tree doesn't refer to them any more.
+	var replaced []int64
+
 	// traverse up the tree and split if necessary
 	for i := 0; i < len(path); i++ {
 		tr := path[i]
@@ -346,13 +350,19 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				n.Keys = n.Keys[:mid]
 			}
 
-			noffset := tr.ptr.Offset
-			if _, err := t.PageFile.Seek(int64(noffset), io.SeekStart); err != nil {
+			// the left node moves to a new page as well: the tree must not change
+			// before the single write that makes both nodes reachable, otherwise the
+			// keys of the right node are lost if the insertion does not get that far.
+			nbuf, err := n.MarshalBinary()
+			if err != nil {
 				return err
 			}
-			if _, err := n.WriteTo(t.PageFile); err != nil {
+			nnewoffset, err := t.PageFile.NewPage(nbuf)
+			if err != nil {
 				return err
 			}
+			noffset := uint64(nnewoffset)
+			replaced = append(replaced, int64(tr.ptr.Offset))
 
 			// update the parent
 			if i < len(path)-1 {
@@ -387,7 +397,7 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				if err := t.MetaPage.SetRoot(pointer.MemoryPointer{Offset: uint64(poffset), Length: uint32(len(pbuf))}); err != nil {
 					return err
 				}
-				return nil
+				return t.freePages(replaced)
 			}
 		} else {
 			// write this node to disk and update the parent
@@ -398,12 +408,21 @@ func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer
 				return err
 			}
 			// no new nodes were produced, so we can return here
-			return nil
+			return t.freePages(replaced)
 		}
 	}
 	panic("unreachable")
 }
 
+func (t *BPTree) freePages(offsets []int64) error {
+	for _, offset := range offsets {
+		if err := t.PageFile.FreePage(offset); err != nil {
+			return fmt.Errorf("free page: %w", err)
+		}
+	}
+	return nil
+}
+
 type Entry struct {
 	Key   []byte
 	Value pointer.MemoryPointer
-- 
2.43.0


From 86389f5bc5e129ed0b21e0884f9dc85a0c14a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 17/48] fix: out-of-range access to a memory-mapped file panics

Positioned reads and writes at offsets outside of the mapping, and writes to
a file that was opened read-only, crashed the process instead of returning
an error like any other file.
---
 pkg/mmap/mmap.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..b612b2c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -133,6 +139,15 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if m.prot&unix.PROT_WRITE == 0 {
+		return 0, fmt.Errorf("mmap: file is not writable: %w", os.ErrPermission)
+	}
+	if len(b) == 0 {
+		return 0, nil
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From bfe523b3d35bc4ccb946140f8f0b053e5d26cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 18/48] fix: growing a memory-mapped file reports a wrong byte
 count

The remapped bytes shadowed the caller's buffer, so that WriteAt returned the
size of the whole file and Write moved the position beyond the end; the next
read panicked.
---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index b612b2c..d79b84c 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -165,11 +165,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		remapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = remapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 9c9765bd080008e8bbcf98e838a33e1938b6bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 19/48] fix: iteration ends early when the first match is in
 the next leaf

---
 src/bptree/traversal.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..ffc836e 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -76,10 +76,13 @@ export class TraversalIterator {
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
       const res = await this.init();
+      if (!res) {
+        return false;
+      }
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      // the first key not less than this.key can be in the leaf to the right,
+      // so step back and let increment move to it.
+      this.records[0].index--;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From 9fc12a25590c4ead0716176b2bcc73e28898a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 20/48] fix: first and last key of a tree with a single leaf

---
 src/bptree/bptree.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
-- 
2.43.0


From 48bb19cb74a22d7ddee86f47464b20d59ab25220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:50 +0000
Subject: [PATCH 21/48] fix: reading a tree without entries

---
 src/bptree/bptree.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 33db1a9..69cd87a 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -21,7 +21,7 @@ export class BPTree {
   private readonly pageFieldType: FieldType;
   private readonly pageFieldWidth: number;
 
-  private rootNodeCache: Promise<BPTreeNode> | null = null;
+  private rootNodeCache: Promise<BPTreeNode | null> | null = null;
   private rootPointerCache: Promise<MemoryPointer> | null = null;
 
   // insight attributes below
@@ -54,7 +54,8 @@ export class BPTree {
     if (!this.rootNodeCache || !this.rootPointerCache) {
       this.rootPointerCache = this.meta.root();
       this.rootNodeCache = this.rootPointerCache.then((ptr) =>
-        this.readNode(ptr),
+        // the pointer of a tree without entries has no length
+        ptr.length === 0 ? null : this.readNode(ptr),
       );
     }
 
-- 
2.43.0


From 72cf0e03e96a44c6af9c5b0f8652af3df8e74c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 22/48] fix: descending ranges skip the last entry and >
 includes equal keys

---
 src/db/database.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..496e1ec 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -242,13 +242,18 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
@@ -287,7 +292,12 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From 23c34680ac24306972f43ebbefac18f5d5500a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 23/48] fix: the limit of a query is ignored

---
 src/db/database.ts | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/db/database.ts b/src/db/database.ts
index 496e1ec..ecb980d 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -100,6 +100,28 @@ export class Database<T extends Schema> {
   }
 
   async *query(query: Query<T>) {
+    const { limit } = query;
+
+    if (limit === undefined) {
+      yield* this.execute(query);
+      return;
+    }
+
+    let remaining = limit;
+    if (remaining <= 0) {
+      return;
+    }
+
+    for await (const result of this.execute(query)) {
+      yield result;
+
+      if (--remaining <= 0) {
+        return;
+      }
+    }
+  }
+
+  private async *execute(query: Query<T>) {
     if (new Set((query.where ?? []).map((where) => where.key)).size > 1) {
       throw new Error("composite indexes not supported... yet");
     }
-- 
2.43.0


From 8186262f3e2491c9ff758ff1d2df6f4652573621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 24/48] fix: a truncated multipart body is read forever or
 accepted

---
 src/resolver/multipart.ts | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..414fcbd 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -1,6 +1,5 @@
 function getReader(stream: ReadableStream) {
   let residual: Uint8Array | null = null;
-  let readDone = false;
   let reader: ReadableStreamDefaultReader<Uint8Array> = stream.getReader();
   return async (
     buf: Uint8Array,
@@ -16,16 +15,15 @@ function getReader(stream: ReadableStream) {
           if (residual.length === 0) {
             residual = null;
           }
-          return {
-            done: readDone && residual === null,
-            value: buf.subarray(0, n),
-          };
+          return { done: false, value: buf.subarray(0, n) };
         }
         const result = await reader.read();
-        if (result.value) {
+        if (result.done) {
+          return { done: true, value: undefined };
+        }
+        if (result.value.length > 0) {
           residual = result.value;
         }
-        readDone ||= result.done;
       }
     }
   };
@@ -78,19 +76,16 @@ export default async function* parseMultipartBody(
         : buf.subarray(ptr + length, buf.length),
     );
     if (done) {
-      return done;
+      throw new Error("Unexpected end of multipart body");
     }
     length += value.length;
-    return false;
   };
 
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
       while (length === 0) {
-        if (await extend()) {
-          return;
-        }
+        await extend();
       }
       if (buf[ptr] !== boundary.charCodeAt(i)) {
         console.log("boundary.charCode", buf[ptr], boundary.charCodeAt(i), i);
@@ -103,9 +98,7 @@ export default async function* parseMultipartBody(
     // read the boundary terminator
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
-        if (await extend()) {
-          return;
-        }
+        await extend();
       }
       if (buf[ptr] === c.charCodeAt(0)) {
         ptr = (ptr + 1) % buf.length;
@@ -124,9 +117,7 @@ export default async function* parseMultipartBody(
     let header: number[] = [];
     while (true) {
       while (length === 0) {
-        if (await extend()) {
-          return;
-        }
+        await extend();
       }
       const byte = buf[ptr];
       ptr = (ptr + 1) % buf.length;
@@ -168,9 +159,7 @@ export default async function* parseMultipartBody(
     const data = new Uint8Array(contentLength);
     for (let i = 0; i < contentLength; i++) {
       while (length === 0) {
-        if (await extend()) {
-          return;
-        }
+        await extend();
       }
       data[i] = buf[ptr];
       ptr = (ptr + 1) % buf.length;
@@ -182,9 +171,7 @@ export default async function* parseMultipartBody(
     // read the trailing \r\n
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
-        if (await extend()) {
-          return;
-        }
+        await extend();
       }
       if (buf[ptr] === c.charCodeAt(0)) {
         ptr = (ptr + 1) % buf.length;
-- 
2.43.0


From 674dc3bd6a4a9b3c595b09ef2841d638477600eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 25/48] fix: legal multipart responses are rejected

Header names and the media type are case-insensitive, the boundary
parameter can be quoted, and servers send an empty line before the
first boundary.
---
 src/resolver/multipart.ts     | 28 +++++++++++++++++++---------
 src/resolver/range-request.ts |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 414fcbd..f1f1cf6 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -48,13 +48,14 @@ export default async function* parseMultipartBody(
 ): AsyncGenerator<{ data: ArrayBuffer; headers: Record<string, string> }> {
   const reader = getReader(stream);
   const tokens = contentType.split(";");
-  if (tokens[0] !== "multipart/byteranges") {
+  if (tokens[0].trim().toLowerCase() !== "multipart/byteranges") {
     throw new Error("Not a multipart/byteranges body");
   }
   const boundaryToken = tokens
     .map((s) => s.trim())
-    .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+    .find((s) => s.toLowerCase().startsWith("boundary="))
+    ?.slice("boundary=".length)
+    .replace(/^"(.*)"$/, "$1");
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
@@ -81,19 +82,27 @@ export default async function* parseMultipartBody(
     length += value.length;
   };
 
+  let preamble = true;
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
       while (length === 0) {
         await extend();
       }
-      if (buf[ptr] !== boundary.charCodeAt(i)) {
-        console.log("boundary.charCode", buf[ptr], boundary.charCodeAt(i), i);
-        throw new Error("Invalid boundary");
+      const byte = buf[ptr];
+      if (byte !== boundary.charCodeAt(i)) {
+        if (!preamble) {
+          throw new Error("Invalid boundary");
+        }
+        // lines may precede the first boundary: skip to the end of this one,
+        // where no index -1 of the boundary matches, and start over.
+        i = byte === "\n".charCodeAt(0) ? -1 : -2;
       }
       ptr = (ptr + 1) % buf.length;
       length--;
     }
+    preamble = false;
 
     // read the boundary terminator
     for (const c of ["\r", "\n"]) {
@@ -134,7 +143,8 @@ export default async function* parseMultipartBody(
             throw new Error(`Invalid header: ${decoded}`);
           }
           const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          // header names are case-insensitive
+          headers[key.trim().toLowerCase()] = value.trim();
           header.length = 0;
         }
       } else {
@@ -145,12 +155,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..9f2aceb 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -69,7 +69,7 @@ export async function requestRanges(
       if (!contentType) {
         throw new Error("Missing Content-Type in response");
       }
-      if (contentType.includes("multipart/byteranges")) {
+      if (contentType.toLowerCase().includes("multipart/byteranges")) {
         let chunks = [];
 
         if (!response.body) {
-- 
2.43.0


From f75cdf5d5845b6745d84bcf90f3908a278b61af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 26/48] fix: responses are accepted without the bytes that were
 requested

A response to several ranges can hold fewer, joined or reordered parts,
and a response to one range can be an error page or cover another range.
Match the parts with the requested ranges by their Content-Range and
fail if one is missing.
---
 src/resolver/multipart.ts     |  5 +-
 src/resolver/range-request.ts | 90 ++++++++++++++++++++++-------------
 2 files changed, 62 insertions(+), 33 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index f1f1cf6..e111714 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -29,7 +29,7 @@ function getReader(stream: ReadableStream) {
   };
 }
 
-function parseContentRangeHeader(
+export function parseContentRangeHeader(
   header: string,
 ): [string, number, number, number] {
   // parse bytes a-b/c
@@ -39,6 +39,9 @@ function parseContentRangeHeader(
   }
   const [range, total] = tokens[1].split("/");
   const [start, end] = range.split("-");
+  if (!/^\d+$/.test(start) || !/^\d+$/.test(end) || +start > +end) {
+    throw new Error("Invalid Content-Range header");
+  }
   return [tokens[0], Number(start), Number(end), Number(total)];
 }
 
diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 9f2aceb..e548639 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -1,7 +1,40 @@
 import { Config } from "../index";
-import parseMultipartBody from "./multipart";
+import parseMultipartBody, { parseContentRangeHeader } from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
+type Part = { data: ArrayBuffer; contentRange: string | null | undefined };
+
+/**
+ * Picks the bytes of a requested range out of the parts of a response, which a
+ * server can order or join as it likes.
+ */
+function selectRange(
+  parts: Part[],
+  { start, end }: { start: number; end: number },
+): { data: ArrayBuffer; totalLength: number } {
+  for (const { data, contentRange } of parts) {
+    if (!contentRange) {
+      throw new Error("Missing Content-Range header");
+    }
+
+    const [unit, partStart, partEnd, totalLength] =
+      parseContentRangeHeader(contentRange);
+
+    if (unit !== "bytes" || data.byteLength !== partEnd - partStart + 1) {
+      throw new Error(`Invalid Content-Range header: ${contentRange}`);
+    }
+
+    if (partStart <= start && end <= partEnd) {
+      return {
+        data: data.slice(start - partStart, end - partStart + 1),
+        totalLength,
+      };
+    }
+  }
+
+  throw new Error(`Response does not include the range ${start}-${end}`);
+}
+
 async function resolveIndividualPromises(
   url: string,
   ranges: { start: number; end: number; expectedLength?: number }[],
@@ -14,16 +47,23 @@ async function resolveIndividualPromises(
         headers: { Range: `bytes=${rangeHeader}` },
       });
 
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
+      if (res.status !== 206) {
+        throw new Error(`Expected 206 response, got ${res.status}`);
+      }
+
+      const result = selectRange(
+        [
+          {
+            data: await res.arrayBuffer(),
+            contentRange: res.headers.get("Content-Range"),
+          },
+        ],
+        { start, end },
       );
-      if (expectedLength && totalLength !== expectedLength) {
+      if (expectedLength && result.totalLength !== expectedLength) {
         throw new LengthIntegrityError();
       }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
+      return result;
     },
   );
   return await Promise.all(individualRangePromises);
@@ -70,41 +110,27 @@ export async function requestRanges(
         throw new Error("Missing Content-Type in response");
       }
       if (contentType.toLowerCase().includes("multipart/byteranges")) {
-        let chunks = [];
+        const parts: Part[] = [];
 
         if (!response.body) {
           throw new Error(`response body is null: ${response.body}`);
         }
 
-        for await (const chunk of parseMultipartBody(
+        for await (const { data, headers } of parseMultipartBody(
           contentType,
           response.body,
         )) {
-          chunks.push(chunk);
+          parts.push({ data, contentRange: headers["content-range"] });
         }
 
-        // the last element is null since the final boundary marker is followed by another delim.
-        if (chunks[chunks.length - 1].data === undefined) {
-          chunks.pop();
-        }
-
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
-
-          return { data, totalLength };
-        });
+        return ranges.map((range) => selectRange(parts, range));
       } else if (response.headers.has("Content-Range")) {
-        const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
-        );
-        return [
-          {
-            data: abuf,
-            totalLength: totalLength,
-          },
-        ];
+        const part = {
+          data: await response.arrayBuffer(),
+          contentRange: response.headers.get("Content-Range"),
+        };
+
+        return ranges.map((range) => selectRange([part], range));
       } else {
         throw new Error(`Unexpected response format: ${contentType}`);
       }
-- 
2.43.0


From 29750adc5548287ecf7273af559b2b7903f4ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 27/48] fix: a range response without Content-Type is rejected

---
 src/resolver/range-request.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index e548639..786dd67 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -105,10 +105,8 @@ export async function requestRanges(
       );
       return await resolveIndividualPromises(url, ranges);
     case 206:
-      const contentType = response.headers.get("Content-Type");
-      if (!contentType) {
-        throw new Error("Missing Content-Type in response");
-      }
+      // the response to a single range need not have a type
+      const contentType = response.headers.get("Content-Type") ?? "";
       if (contentType.toLowerCase().includes("multipart/byteranges")) {
         const parts: Part[] = [];
 
-- 
2.43.0


From d1ccf17ac7ca0e36bd6fe10fb87872e049bfb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 28/48] fix: a failed request makes every later query fail

The promises of failed requests were kept, and so was a list of fields
that a failure had cut short.
---
 src/db/database.ts     | 9 ++++++++-
 src/file/index-file.ts | 7 ++++++-
 src/file/multi.ts      | 9 ++++++++-
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index ecb980d..73f83aa 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -93,7 +93,14 @@ export class Database<T extends Schema> {
 
   async fields() {
     if (!this.indexHeadersPromise) {
-      this.indexHeadersPromise = this.indexFile.indexHeaders();
+      const promise = this.indexFile.indexHeaders();
+      this.indexHeadersPromise = promise;
+      promise.catch(() => {
+        // let the next call try again
+        if (this.indexHeadersPromise === promise) {
+          this.indexHeadersPromise = undefined;
+        }
+      });
     }
 
     return this.indexHeadersPromise;
diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..8d53f8e 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -116,8 +116,10 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       throw new Error(`failed to fetch meta pages`);
     }
 
+    const linkedMetaPages: LinkedMetaPage[] = [];
+
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      linkedMetaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -125,6 +127,9 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+
+    // keep the pages only when all of them are known
+    this.linkedMetaPages = linkedMetaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..addd578 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -58,12 +58,19 @@ export class LinkedMetaPage {
 
   private async getMetaPage(): Promise<ArrayBuffer> {
     if (!this.metaPageDataPromise) {
-      this.metaPageDataPromise = this.resolver([
+      const promise = this.resolver([
         {
           start: Number(this.offset),
           end: Number(this.offset) + PAGE_SIZE_BYTES - 1,
         },
       ]);
+      this.metaPageDataPromise = promise;
+      promise.catch(() => {
+        // let the next call try again
+        if (this.metaPageDataPromise === promise) {
+          this.metaPageDataPromise = undefined;
+        }
+      });
     }
 
     const res = await this.metaPageDataPromise;
-- 
2.43.0


From 427c5b0bda54ad9a079394084311591e8a72f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 29/48] fix: a search yields a record once per occurrence of
 each token

---
 src/bptree/bptree.ts | 10 ++++------
 src/db/database.ts   |  8 +++++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 69cd87a..b811f69 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,6 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
 
   constructor(
     tree: RangeResolver,
@@ -174,6 +170,8 @@ export class BPTree {
   // these traverse through the iterator
   public async termFrequency(key: ReferencedValue) {
     const p = await this.iter(key);
+    // keyed by the start of the record, since records do not overlap
+    const tfMap = new Map<number, { dp: DataPointer; tf: number }>();
 
     while (await p.next()) {
       const currentKey = p.getKey();
@@ -188,10 +186,10 @@ export class BPTree {
         end: Number(mp.offset) + mp.length - 1,
       };
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      tfMap.set(dp.start, { dp, tf: (tfMap.get(dp.start)?.tf ?? 0) + 1 });
     }
 
-    return this.tfMap;
+    return tfMap;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index 73f83aa..5712437 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -149,7 +149,8 @@ export class Database<T extends Schema> {
       const tok = new NgramTokenizer(minGram, maxGram);
       const likeToks = NgramTokenizer.shuffle(tok.tokens(like));
 
-      const table = new PriorityTable<DataPointer>();
+      const table = new PriorityTable<number>();
+      const records = new Map<number, DataPointer>();
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
@@ -201,17 +202,18 @@ export class Database<T extends Schema> {
 
         const K1 = 1.2;
 
-        for (const [key, tf] of tfMap.entries()) {
+        for (const [key, { dp, tf }] of tfMap.entries()) {
           const num = tf * (K1 + 1);
           const den = tf + K1;
           const score = idf * (num / den);
 
           table.insert(key, score);
+          records.set(key, dp);
         }
       }
 
       for (const { key, score } of table.top()) {
-        const { start, end } = key;
+        const { start, end } = records.get(key)!;
         const data = await this.dataFile.get(start, end);
         yield { data, score };
       }
-- 
2.43.0


From f6e3ae8c134eee8d77df845bb572e6f859e95d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 30/48] fix: searches for text outside ASCII miss records or
 tokens

---
 src/ngram/tokenizer.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..cc169d6 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,10 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    // the index holds the tokens of the decomposed text, and offsets count code points
+    const chars = Array.from(phrase.normalize("NFKD"));
+
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +59,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From aecd276c5fdfdd559c476f9093f274c204ada788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 31/48] fix: ranges of numbers with negative values are
 incomplete and out of order

Keys of numbers compare by their IEEE 754 bits, in which negative numbers
come last and in reverse. Split a range of numbers in two ranges of keys.
---
 src/db/database.ts  | 203 +-------------------------------------------
 src/db/key-range.ts | 159 ++++++++++++++++++++++++++++++++++
 2 files changed, 163 insertions(+), 199 deletions(-)
 create mode 100644 src/db/key-range.ts

diff --git a/src/db/database.ts b/src/db/database.ts
index 5712437..d51ce1d 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -1,5 +1,5 @@
 import { BPTree, ReferencedValue } from "../bptree/bptree";
-import { LinkedMetaPage, maxUint64 } from "../file/multi";
+import { LinkedMetaPage } from "../file/multi";
 import { DataFile } from "../file/data-file";
 import { VersionedIndexFile } from "../file/index-file";
 import { IndexHeader, readIndexMeta } from "../file/meta";
@@ -15,6 +15,7 @@ import {
 } from "./query-lang";
 import { NgramTokenizer } from "../ngram/tokenizer";
 import { PriorityTable } from "../ngram/table";
+import { keyRanges, scan } from "./key-range";
 import { DataPointer } from "../bptree/node";
 export enum FieldType {
   String = 0,
@@ -253,124 +254,8 @@ export class Database<T extends Schema> {
           entries,
         );
 
-        if (operation === ">") {
-          if (ord === "ASC") {
-            const valueRef = new ReferencedValue(
-              { offset: maxUint64, length: 0 },
-              valueBuf,
-            );
-            const iter = btree.iter(valueRef);
-
-            while (await iter.next()) {
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          } else {
-            const lastKey = await btree.last();
-            const iter = btree.iter(
-              new ReferencedValue(
-                { offset: maxUint64, length: 0 },
-                lastKey.value,
-              ),
-            );
-
-            while (await iter.prev()) {
-              const currentKey = iter.getKey();
-
-              if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
-              ) {
-                break;
-              }
-
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-              yield handleSelect(data, query.select);
-            }
-          }
-        } else if (operation === ">=") {
-          if (ord === "ASC") {
-            const valueRef = new ReferencedValue(
-              { offset: 0n, length: 0 },
-              valueBuf,
-            );
-            const iter = btree.iter(valueRef);
-
-            while (await iter.next()) {
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              // console.log(
-              //   `ranges`,
-              //   Number(mp.offset),
-              //   Number(mp.offset) + mp.length - 1,
-              // );
-              yield handleSelect(data, query.select);
-            }
-          } else {
-            const lastKey = await btree.last();
-            const iter = btree.iter(
-              new ReferencedValue(
-                { offset: maxUint64, length: 0 },
-                lastKey.value,
-              ),
-            );
-
-            while (await iter.prev()) {
-              const currentKey = iter.getKey();
-
-              if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
-              ) {
-                break;
-              }
-
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          }
-        } else if (operation === "==") {
-          const valueRef = new ReferencedValue(
-            { offset: 0n, length: 0 },
-            valueBuf,
-          );
-          const iter = btree.iter(valueRef);
-
-          while (await iter.next()) {
-            const currentKey = iter.getKey();
-
-            if (
-              ReferencedValue.compareBytes(currentKey.value, valueBuf) !== 0
-            ) {
-              break;
-            }
-
-            const mp = iter.getPointer();
-
-            if (mp === null) {
-              throw new Error(`memory pointer is undefined`);
-            }
-
+        for (const range of keyRanges(operation, value, valueBuf, ord)) {
+          for await (const mp of scan(btree, range)) {
             const data = await this.dataFile.get(
               Number(mp.offset),
               Number(mp.offset) + mp.length - 1,
@@ -378,86 +263,6 @@ export class Database<T extends Schema> {
 
             yield handleSelect(data, query.select);
           }
-        } else if (operation === "<=") {
-          if (ord === "DESC") {
-            const valueRef = new ReferencedValue(
-              { offset: maxUint64, length: 0 },
-              valueBuf,
-            );
-            const iter = btree.iter(valueRef);
-            while (await iter.prev()) {
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          } else {
-            const firstKey = await btree.first();
-            const iter = btree.iter(firstKey);
-
-            while (await iter.next()) {
-              const currentKey = iter.getKey();
-
-              if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) > 0
-              ) {
-                break;
-              }
-
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          }
-        } else if (operation === "<") {
-          if (ord === "DESC") {
-            const valueRef = new ReferencedValue(
-              { offset: 0n, length: 0 },
-              valueBuf,
-            );
-            const iter = btree.iter(valueRef);
-            while (await iter.prev()) {
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          } else {
-            const firstKey = await btree.first();
-            const iter = btree.iter(firstKey);
-
-            while (await iter.next()) {
-              const currentKey = iter.getKey();
-
-              if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) >= 0
-              ) {
-                break;
-              }
-
-              const mp = iter.getPointer();
-
-              const data = await this.dataFile.get(
-                Number(mp.offset),
-                Number(mp.offset) + mp.length - 1,
-              );
-
-              yield handleSelect(data, query.select);
-            }
-          }
         }
       }
     }
diff --git a/src/db/key-range.ts b/src/db/key-range.ts
new file mode 100644
index 0000000..4db414a
--- /dev/null
+++ b/src/db/key-range.ts
@@ -0,0 +1,159 @@
+import { BPTree, ReferencedValue } from "../bptree/bptree";
+import { MemoryPointer } from "../bptree/node";
+import { maxUint64 } from "../file/multi";
+import { OrderBy, WhereNode } from "./query-lang";
+
+type Bound<V> = { value: V; inclusive: boolean };
+
+type Range<V> = { lower?: Bound<V>; upper?: Bound<V> };
+
+type Direction = OrderBy<any>["direction"];
+
+/** A range of keys in the order of their bytes. */
+export type KeyRange = Range<ArrayBuffer> & { direction: Direction };
+
+function conditionRange<V>(
+  operation: WhereNode<any>["operation"],
+  value: V,
+): Range<V> | null {
+  switch (operation) {
+    case ">":
+      return { lower: { value, inclusive: false } };
+    case ">=":
+      return { lower: { value, inclusive: true } };
+    case "==":
+      return {
+        lower: { value, inclusive: true },
+        upper: { value, inclusive: true },
+      };
+    case "<=":
+      return { upper: { value, inclusive: true } };
+    case "<":
+      return { upper: { value, inclusive: false } };
+    default:
+      return null;
+  }
+}
+
+function numberKey(value: number): ArrayBuffer {
+  const key = new ArrayBuffer(8);
+  new DataView(key).setFloat64(0, value);
+  return key;
+}
+
+/**
+ * The key of a number is its big-endian IEEE 754 encoding. The keys of
+ * negative numbers have the sign bit set, so they come after all the others
+ * and in reverse. Zero has a key of each kind.
+ */
+function numberKeyRanges(
+  { lower, upper }: Range<number>,
+  direction: Direction,
+): KeyRange[] {
+  const negativeBound = ({ value, inclusive }: Bound<number>) => ({
+    value: numberKey(value === 0 ? -0 : value),
+    inclusive,
+  });
+  const positiveBound = ({ value, inclusive }: Bound<number>) => ({
+    value: numberKey(value === 0 ? 0 : value),
+    inclusive,
+  });
+  const zero = { value: 0, inclusive: true };
+
+  const ranges: KeyRange[] = [];
+
+  if (!lower || lower.value <= 0) {
+    ranges.push({
+      lower: negativeBound(upper && upper.value <= 0 ? upper : zero),
+      upper: lower && negativeBound(lower),
+      direction: direction === "ASC" ? "DESC" : "ASC",
+    });
+  }
+
+  if (!upper || upper.value >= 0) {
+    ranges.push({
+      lower: positiveBound(lower && lower.value >= 0 ? lower : zero),
+      upper: positiveBound(upper ?? { value: Infinity, inclusive: true }),
+      direction,
+    });
+  }
+
+  return direction === "ASC" ? ranges : ranges.reverse();
+}
+
+/**
+ * Returns the ranges of keys that satisfy a condition, in the order in which
+ * to visit them.
+ */
+export function keyRanges(
+  operation: WhereNode<any>["operation"],
+  value: unknown,
+  valueBuf: ArrayBuffer,
+  direction: Direction,
+): KeyRange[] {
+  if (typeof value === "number" || typeof value === "bigint") {
+    const n = Number(value);
+    const range = conditionRange(operation, n);
+
+    return range && !Number.isNaN(n) ? numberKeyRanges(range, direction) : [];
+  }
+
+  const range = conditionRange(operation, valueBuf);
+
+  return range ? [{ ...range, direction }] : [];
+}
+
+/** Visits the entries of a tree that are in a range of keys. */
+export async function* scan(
+  btree: BPTree,
+  { lower, upper, direction }: KeyRange,
+): AsyncGenerator<MemoryPointer> {
+  // a reference that sorts before or after the entries with the same value
+  const before = (value: ArrayBuffer) =>
+    new ReferencedValue({ offset: 0n, length: 0 }, value);
+  const after = (value: ArrayBuffer) =>
+    new ReferencedValue({ offset: maxUint64, length: 0 }, value);
+
+  if (direction === "ASC") {
+    const start = lower ?? { value: new ArrayBuffer(0), inclusive: true };
+    const iter = btree.iter(
+      start.inclusive ? before(start.value) : after(start.value),
+    );
+
+    while (await iter.next()) {
+      if (upper) {
+        const cmp = ReferencedValue.compareBytes(
+          iter.getKey().value,
+          upper.value,
+        );
+        if (cmp > 0 || (cmp === 0 && !upper.inclusive)) {
+          return;
+        }
+      }
+
+      yield iter.getPointer();
+    }
+  } else {
+    const start = upper ?? {
+      value: (await btree.last()).value,
+      inclusive: true,
+    };
+    const iter = btree.iter(
+      start.inclusive ? after(start.value) : before(start.value),
+    );
+
+    while (await iter.prev()) {
+      if (lower) {
+        const cmp = ReferencedValue.compareBytes(
+          iter.getKey().value,
+          lower.value,
+        );
+        if (cmp < 0 || (cmp === 0 && !lower.inclusive)) {
+          return;
+        }
+      }
+
+      yield iter.getPointer();
+    }
+  }
+}
-- 
2.43.0


From 742c5b42239d6432bd37e249094e0fda25f9c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 32/48] fix: several conditions on a field yield records that
 satisfy only one

---
 src/db/database.ts  | 15 ++++++---
 src/db/key-range.ts | 77 +++++++++++++++++++++++++++++++++++++++------
 2 files changed, 78 insertions(+), 14 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index d51ce1d..8fae4f1 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -220,8 +220,8 @@ export class Database<T extends Schema> {
       }
     }
 
-    if (query.where) {
-      for (const { key, value, operation } of query.where ?? []) {
+    if (query.where && query.where.length > 0) {
+      const conditions = query.where.map(({ key, value, operation }) => {
         const header = headers.find((header) => header.fieldName === key);
         if (!header) {
           throw new Error("field not found");
@@ -231,8 +231,15 @@ export class Database<T extends Schema> {
         if (res === null) {
           throw new Error(`unable to process key with a type ${typeof value}`);
         }
-        const { fieldType, valueBuf } = res;
 
+        return { operation, value, ...res };
+      });
+
+      const { key } = query.where[0];
+      const { fieldType } = conditions[0];
+
+      // a value has one type, so it cannot satisfy conditions on several types
+      if (conditions.every((cond) => cond.fieldType === fieldType)) {
         const mps = await this.indexFile.seek(key as string, fieldType);
         const mp = mps[0];
         const { fieldType: mpFieldType, width: mpFieldWidth } = readIndexMeta(
@@ -254,7 +261,7 @@ export class Database<T extends Schema> {
           entries,
         );
 
-        for (const range of keyRanges(operation, value, valueBuf, ord)) {
+        for (const range of keyRanges(conditions, ord)) {
           for await (const mp of scan(btree, range)) {
             const data = await this.dataFile.get(
               Number(mp.offset),
diff --git a/src/db/key-range.ts b/src/db/key-range.ts
index 4db414a..1c0c1ad 100644
--- a/src/db/key-range.ts
+++ b/src/db/key-range.ts
@@ -1,6 +1,7 @@
 import { BPTree, ReferencedValue } from "../bptree/bptree";
 import { MemoryPointer } from "../bptree/node";
 import { maxUint64 } from "../file/multi";
+import { FieldType } from "./database";
 import { OrderBy, WhereNode } from "./query-lang";
 
 type Bound<V> = { value: V; inclusive: boolean };
@@ -35,6 +36,46 @@ function conditionRange<V>(
   }
 }
 
+/** Returns the tighter of two bounds, where sign is 1 for lower bounds. */
+function tighter<V>(
+  a: Bound<V> | undefined,
+  b: Bound<V> | undefined,
+  compare: (a: V, b: V) => number,
+  sign: number,
+): Bound<V> | undefined {
+  if (!a || !b) {
+    return a ?? b;
+  }
+
+  const cmp = sign * compare(a.value, b.value);
+  if (cmp === 0) {
+    return a.inclusive ? b : a;
+  }
+  return cmp > 0 ? a : b;
+}
+
+/** Returns the range of values that satisfy every condition. */
+function intersection<V>(
+  conditions: { operation: WhereNode<any>["operation"]; value: V }[],
+  compare: (a: V, b: V) => number,
+): Range<V> | null {
+  let range: Range<V> = {};
+
+  for (const { operation, value } of conditions) {
+    const { lower, upper } = conditionRange(operation, value) ?? {};
+    if (!lower && !upper) {
+      return null;
+    }
+
+    range = {
+      lower: tighter(range.lower, lower, compare, 1),
+      upper: tighter(range.upper, upper, compare, -1),
+    };
+  }
+
+  return range;
+}
+
 function numberKey(value: number): ArrayBuffer {
   const key = new ArrayBuffer(8);
   new DataView(key).setFloat64(0, value);
@@ -82,23 +123,39 @@ function numberKeyRanges(
 }
 
 /**
- * Returns the ranges of keys that satisfy a condition, in the order in which
- * to visit them.
+ * Returns the ranges of keys that satisfy every condition, in the order in
+ * which to visit them. The conditions are on values of the same type.
  */
 export function keyRanges(
-  operation: WhereNode<any>["operation"],
-  value: unknown,
-  valueBuf: ArrayBuffer,
+  conditions: {
+    operation: WhereNode<any>["operation"];
+    value: unknown;
+    valueBuf: ArrayBuffer;
+    fieldType: FieldType;
+  }[],
   direction: Direction,
 ): KeyRange[] {
-  if (typeof value === "number" || typeof value === "bigint") {
-    const n = Number(value);
-    const range = conditionRange(operation, n);
+  if (conditions.every(({ fieldType }) => fieldType === FieldType.Float64)) {
+    const numbers = conditions.map(({ operation, value }) => ({
+      operation,
+      value: Number(value),
+    }));
+    const range = intersection(numbers, (a, b) =>
+      a < b ? -1 : a > b ? 1 : 0,
+    );
 
-    return range && !Number.isNaN(n) ? numberKeyRanges(range, direction) : [];
+    return range && !numbers.some(({ value }) => Number.isNaN(value))
+      ? numberKeyRanges(range, direction)
+      : [];
   }
 
-  const range = conditionRange(operation, valueBuf);
+  const range = intersection(
+    conditions.map(({ operation, valueBuf }) => ({
+      operation,
+      value: valueBuf,
+    })),
+    ReferencedValue.compareBytes,
+  );
 
   return range ? [{ ...range, direction }] : [];
 }
-- 
2.43.0


From e0811c710ec3626381ff13323d883f14b3a83e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 33/48] fix: offsets of 2 GiB and more are truncated by the
 client

---
 src/util/uvarint.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..7431335 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -38,11 +38,12 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      // bitwise operators would truncate the value to 32 bits
+      let value = x + b * 2 ** s;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
+    x += (b & 0x7f) * 2 ** s;
     s += 7;
   }
 
-- 
2.43.0


From 7f81a7162f54e9a9066d4dc5216ab11488f50f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 34/48] fix: selecting a field named like a member of
 Object.prototype

---
 src/db/query-lang.ts | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/db/query-lang.ts b/src/db/query-lang.ts
index b06b077..aef53d6 100644
--- a/src/db/query-lang.ts
+++ b/src/db/query-lang.ts
@@ -79,15 +79,11 @@ export function processWhere<T>(value: T[keyof T]): QueryWhere | null {
 export function handleSelect<T>(data: string, select?: (keyof T)[]) {
   let jData = JSON.parse(data);
   if (select && select.length > 0) {
-    return select.reduce(
-      (acc, field) => {
-        if (field in jData) {
-          acc[field] = jData[field];
-        }
-        return acc;
-      },
-      {} as Pick<T, keyof T>,
-    );
+    return Object.fromEntries(
+      select
+        .filter((field) => Object.prototype.hasOwnProperty.call(jData, field))
+        .map((field) => [field, jData[field]]),
+    ) as Pick<T, keyof T>;
   }
 
   return jData;
-- 
2.43.0


From 90c8ed9bfbc19a9bfe2d825c149ae534c08ffecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:45 +0000
Subject: [PATCH 35/48] fix: a vector can be linked to itself while it is
 inserted

---
 pkg/hnsw/hnsw.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..6205852 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"math/rand"
+	"slices"
 )
 
 type Id = uint
@@ -204,6 +205,8 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 	entryItem := h.findCloserEntryPoint(&q, qFriends)
 
+	neighborsAtLevel := make([][]*Item, min(topLevel, qTopLevel)+1)
+
 	for level := min(topLevel, qTopLevel); level >= 0; level-- {
 		nnToQAtLevel, err := h.searchLevel(&q, entryItem, h.efConstruction, level)
 
@@ -215,6 +218,19 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 		if err != nil {
 			return 0, fmt.Errorf("failed to select for nearest neighbors to Q at level %v: %w", level, err)
 		}
+		neighborsAtLevel[level] = slices.Clone(neighbors)
+
+		newEntryItem, err := nnToQAtLevel.PopMinItem()
+		if err != nil {
+			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
+		}
+
+		entryItem = newEntryItem
+	}
+
+	// q is linked only once the search is over, lest it finds itself
+	for level := len(neighborsAtLevel) - 1; level >= 0; level-- {
+		neighbors := neighborsAtLevel[level]
 
 		// add bidirectional connections from neighbors to q at layer c
 		for _, neighbor := range neighbors {
@@ -239,13 +255,6 @@ func (h *Hnsw) InsertVector(q Point) (Id, error) {
 
 			h.friends[neighbor.id].friends[level] = neighborFriendsAtLevel
 		}
-
-		newEntryItem, err := nnToQAtLevel.PopMinItem()
-		if err != nil {
-			return 0, fmt.Errorf("failed to find nearest neighbor to Q at level %v: %w", level, err)
-		}
-
-		entryItem = newEntryItem
 	}
 
 	if qTopLevel > topLevel {
-- 
2.43.0


From e3de66703e4b125bb57e143f42cbd9d96fa32015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 36/48] fix: vectors with equal neighbour lists are refused by
 the vector index

---
 pkg/vectorpage/manager.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..3459f42 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,12 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	// different vectors can have equal friends, the id tells them apart
+	key := pointer.ReferencedValue{
+		DataPointer: pointer.MemoryPointer{Offset: uint64(xId)},
+		Value:       xfriendsBuf,
+	}
+	if err := vp.bptree.Insert(key, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From 1bcadc5248ccf64272286ae55795a4bda0c267ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 37/48] fix: a key beyond the end of the data file panics

---
 pkg/bptree/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/bptree/node.go b/pkg/bptree/node.go
index ad167f7..74570fe 100644
--- a/pkg/bptree/node.go
+++ b/pkg/bptree/node.go
@@ -141,6 +141,9 @@ func (n *BPTreeNode) UnmarshalBinary(buf []byte) error {
 		if n.Width == uint16(0) {
 			// read the key out of the memory pointer stored at this position
 			dp := n.Keys[i].DataPointer
+			if end := dp.Offset + uint64(dp.Length); end < dp.Offset || end > uint64(len(n.Data)) {
+				return fmt.Errorf("key at %d is not in the data file of %d bytes", dp.Offset, len(n.Data))
+			}
 			n.Keys[i].Value = n.DataParser.Parse(n.Data[dp.Offset : dp.Offset+uint64(dp.Length)]) // resolving the data-file
 		} else {
 			n.Keys[i].Value = buf[m : m+int(n.Width-1)]
-- 
2.43.0


From dd2508fa6cedbf0c57dd7133c3a3407056a78eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 38/48] fix: a data file shorter than its index panics or is
 accepted

---
 pkg/handlers/csv.go   | 3 +++
 pkg/handlers/jsonl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 1765653..6903c94 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -33,6 +33,9 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is shorter than the data that is indexed: %d bytes, expected at least %d", len(df), metadata.ReadOffset)
+	}
 
 	syncErr := c.synchronizeRecords(f, df, metadata)
 
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 83bef9c..bc621d9 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -30,6 +30,9 @@ func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file is shorter than the data that is indexed: %d bytes, expected at least %d", len(df), metadata.ReadOffset)
+	}
 
 	syncErr := j.synchronizeRecords(f, df, metadata)
 
-- 
2.43.0


From e04d95ef4a26d8632e809a5e89e998bb2c90a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 39/48] fix: ranges of a single byte are refused in multipart
 mode

---
 src/resolver/range-request.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 786dd67..f5c48a2 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -80,9 +80,10 @@ export async function requestRanges(
   }
 
   for (const { start, end } of ranges) {
-    if (end - start <= 0) {
+    // both ends are inclusive, so they are equal for a range of one byte
+    if (end < start) {
       throw new Error(
-        `Invalid range: The start (${start}) and end (${end}) of a range are equal, indicating a zero-length range.`,
+        `Invalid range: The end (${end}) of a range precedes its start (${start}).`,
       );
     }
   }
-- 
2.43.0


From bfd5a363aad70cb8ade11d6ea3505c726fdd71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 40/48] fix: the expected length is ignored in multipart mode

---
 src/resolver/range-request.ts | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index f5c48a2..4fac4c6 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -10,7 +10,11 @@ type Part = { data: ArrayBuffer; contentRange: string | null | undefined };
  */
 function selectRange(
   parts: Part[],
-  { start, end }: { start: number; end: number },
+  {
+    start,
+    end,
+    expectedLength,
+  }: { start: number; end: number; expectedLength?: number },
 ): { data: ArrayBuffer; totalLength: number } {
   for (const { data, contentRange } of parts) {
     if (!contentRange) {
@@ -25,6 +29,9 @@ function selectRange(
     }
 
     if (partStart <= start && end <= partEnd) {
+      if (expectedLength && totalLength !== expectedLength) {
+        throw new LengthIntegrityError();
+      }
       return {
         data: data.slice(start - partStart, end - partStart + 1),
         totalLength,
@@ -51,19 +58,15 @@ async function resolveIndividualPromises(
         throw new Error(`Expected 206 response, got ${res.status}`);
       }
 
-      const result = selectRange(
+      return selectRange(
         [
           {
             data: await res.arrayBuffer(),
             contentRange: res.headers.get("Content-Range"),
           },
         ],
-        { start, end },
+        { start, end, expectedLength },
       );
-      if (expectedLength && result.totalLength !== expectedLength) {
-        throw new LengthIntegrityError();
-      }
-      return result;
     },
   );
   return await Promise.all(individualRangePromises);
-- 
2.43.0


From 6dc3d12447f69a90494a9dd8183d4f12cf4017c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 41/48] fix: cached ranges lose their last byte, and failures
 are cached

---
 src/resolver/cache.ts | 83 ++++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..7062916 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -1,35 +1,62 @@
-import { RangeResolver } from "./resolver";
+import { LengthIntegrityError, RangeResolver } from "./resolver";
+
+type Entry = {
+  start: number;
+  end: number;
+  result?: Promise<{ data: ArrayBuffer; totalLength: number }>;
+};
 
 export function cache(resolver: RangeResolver): RangeResolver {
-  const cache: [
-    [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
-  ][] = [];
-
-  return async ([{ start, end }]): Promise<
-    { data: ArrayBuffer; totalLength: number }[]
-  > => {
-    // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0],
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
-        ];
-      });
+  const cache: Entry[] = [];
+
+  const evict = (entry: Entry) => {
+    const index = cache.indexOf(entry);
+    if (index !== -1) {
+      cache.splice(index, 1);
     }
+  };
+
+  return async (ranges) => {
+    const missing: Entry[] = [];
+    const entries = ranges.map(({ start, end }) => {
+      // check if start-end is contained in any of the cached ranges
+      const contains = (e: Entry) => e.start <= start && end <= e.end;
+      let entry = cache.find(contains) ?? missing.find(contains);
 
-    // TODO: check if start-end overlaps with any of the cached ranges
+      // TODO: check if start-end overlaps with any of the cached ranges
+
+      if (!entry) {
+        entry = { start, end };
+        missing.push(entry);
+      }
+      return entry;
+    });
+
+    if (missing.length > 0) {
+      // other calls can share the result, so the length is checked below
+      const results = resolver(missing.map(({ start, end }) => ({ start, end })));
+
+      missing.forEach((entry, i) => {
+        entry.result = results.then((r) => r[i]);
+        // let the next call try again
+        entry.result.catch(() => evict(entry));
+        cache.push(entry);
+      });
+    }
 
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+    return await Promise.all(
+      entries.map(async (entry, i) => {
+        const { start, end, expectedLength } = ranges[i];
+        const { data, totalLength } = await entry.result!;
+        if (expectedLength && totalLength !== expectedLength) {
+          evict(entry);
+          throw new LengthIntegrityError();
+        }
+        return {
+          data: data.slice(start - entry.start, end - entry.start + 1),
+          totalLength,
+        };
+      }),
+    );
   };
 }
-- 
2.43.0


From 1219f078ed46c201e7c6205271135d6ffffbd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 42/48] fix: records are refused when the ngrams of a value
 reach into the next one

The entries of an ngram are told apart by its offset in the decomposed value,
which can be longer than the value: a search field with characters like U+33AF
could then collide with the entries of a later value, and a valid record could
not be indexed.
---
 pkg/handlers/jsonl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index bc621d9..9530a50 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -275,12 +275,20 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 					}
 					trigrams := ngram.BuildNgram(valueStr, int(width-1))
 
+					// the number of times an ngram occurred so far tells its entries
+					// apart. it is less than the length of the value, unlike the offset
+					// of the ngram in the decomposed value, which can lead to the entries
+					// of the values that follow.
+					occurrences := make(map[string]uint64)
+
 					for _, tri := range trigrams {
 						valueBytes := []byte(tri.Word)
+						occurrence := occurrences[tri.Word]
+						occurrences[tri.Word]++
 
 						if err := page.BPTree(&bptree.BPTree{Data: r, DataParser: j, Width: width}).Insert(pointer.ReferencedValue{
 							DataPointer: pointer.MemoryPointer{
-								Offset: mp.Offset + tri.Offset,
+								Offset: mp.Offset + occurrence,
 								Length: uint32(len(valueStr)), // this is a degenerate case - for ngrams, we store the entire length of the valueStr. This is to help us with the ranking heuristic.
 							},
 							Value: valueBytes,
-- 
2.43.0


From 14ff2a84f53593fe036b4e8814b68c3884c6f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 43/48] fix: IsEmpty reports the opposite

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 4a93c4d..afff6ba 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -124,7 +124,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From 719e2d70754fea022badb7047d953fa30d77e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 44/48] fix: data after the object of a record is ignored
 instead of reported

---
 pkg/handlers/jsonl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 9530a50..3857ea0 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
+	"io"
 	"log/slog"
 	"math"
 	"strings"
@@ -102,6 +103,10 @@ func (j JSONLHandler) validateRecord(f *appendable.IndexFile, record []byte) err
 	if t, err := dec.Token(); err != nil || t != json.Delim('}') {
 		return fmt.Errorf("expected '}', got '%v'", t)
 	}
+	// a record is a single object, anything after it would be lost.
+	if t, err := dec.Token(); err != io.EOF {
+		return fmt.Errorf("expected the end of the record, got '%v'", t)
+	}
 	return nil
 }
 
-- 
2.43.0


From 522d2cb9d25473d4b43c9dfa59f61b27f5ba929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 45/48] fix: a friend on several levels was recorded under its
 lowest level only

---
 pkg/hnsw/friends.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/friends.go b/pkg/hnsw/friends.go
index 3d0cb75..9b3a9f7 100644
--- a/pkg/hnsw/friends.go
+++ b/pkg/hnsw/friends.go
@@ -54,7 +54,10 @@ func (v *Friends) InsertFriendsAtLevel(level int, friendId Id, dist float32) {
 		v.friends[i].Insert(friendId, dist)
 	}
 
-	v.maxLevels[friendId] = level
+	// a friend is inserted at each of its levels in turn, from the highest down.
+	if maxLevel, ok := v.maxLevels[friendId]; !ok || maxLevel < level {
+		v.maxLevels[friendId] = level
+	}
 }
 
 func (v *Friends) GetFriendsAtLevel(level int) (*DistHeap, error) {
-- 
2.43.0


From edbdf1cbf3566082bac9f0f492896a2f4c369507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:53 +0000
Subject: [PATCH 46/48] fix: converting a file not named .jsonl overwrote it

---
 scripts/jsonl2json/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/jsonl2json/src/main.rs b/scripts/jsonl2json/src/main.rs
index 1d3a5d1..ff175c1 100644
--- a/scripts/jsonl2json/src/main.rs
+++ b/scripts/jsonl2json/src/main.rs
@@ -1,7 +1,7 @@
 use std::fs::File;
 use std::io::{BufRead, BufReader};
 use clap::Parser;
-use anyhow::{Context, Result};
+use anyhow::{ensure, Context, Result};
 use serde_json::Value;
 
 #[derive(Parser, Debug)]
@@ -14,6 +14,10 @@ fn main() -> Result<()>{
     let args = Args::parse();
     let file_path = args.file_path;
 
+    // otherwise the output would replace the input.
+    let output_path = file_path.replace(".jsonl", ".json").to_owned();
+    ensure!(output_path != file_path, "not a .jsonl file: {}", file_path);
+
     let jsonl_file = File::open(&file_path)?;
     let reader = BufReader::new(jsonl_file);
 
@@ -25,7 +29,6 @@ fn main() -> Result<()>{
         array.push(json);
     }
 
-    let output_path = file_path.replace(".jsonl", ".json").to_owned();
     let json_string = serde_json::to_string_pretty(&array)
         .with_context(|| "Failed to serialize JSON data")?;
 
-- 
2.43.0


From 0541cdb8756818b5814f6c857f86ca43eabc54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:08 +0000
Subject: [PATCH 47/48] fix: a byte order mark at the start of a field name was
 lost by the client

---
 src/file/meta.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/meta.ts b/src/file/meta.ts
index 333f786..7e9fe12 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -67,7 +67,10 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   }
 
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
-  const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
+  // a name can begin with what would be a byte order mark
+  const fieldName = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+    fieldNameBuffer,
+  );
 
   const { value: totalFieldValueLength } = decodeUvarint(
     buffer.slice(6 + nameLength),
-- 
2.43.0


From 96b90276c2b316d83f0f5e3d46db58aed4aff12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:08 +0000
Subject: [PATCH 48/48] fix: the client split searches at white space that the
 index does not split at

---
 src/ngram/tokenizer.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index cc169d6..42adefa 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -35,7 +35,8 @@ export class NgramTokenizer {
     chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
-      } else if (/\s/.test(c)) {
+      } else if (/[ \t\n\v\f\r]/.test(c)) {
+        // only white space in ASCII separates the words of the index
         if (currentWordOffsets.length >= this.minGram) {
           wordOffsets.push(currentWordOffsets);
         }
-- 
2.43.0

