package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func handlerFor(csv bool) appendable.DataHandler {
	if csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

// Logical is the contents of an index as read through the public interface.
type Logical struct {
	Order   []indexKey
	Meta    map[indexKey]appendable.IndexMeta
	Entries map[indexKey][]Entry // in iteration order
	Keys    map[indexKey][]pointer.ReferencedValue
	pages   map[indexKey]*linkedpage.LinkedPage
	File    appendable.FileMeta
}

type readOpts struct {
	maxEntries int
}

func treeOf(mp *linkedpage.LinkedPage, k indexKey, df []byte, csv bool) *bptree.BPTree {
	t := &bptree.BPTree{Data: df, DataParser: handlerFor(csv)}
	if !csv {
		t.Width = uint16(widthOf(k.Type))
	}
	return mp.BPTree(t)
}

// readIndex reads everything an index holds. Errors are those of the code under
// test.
func readIndex(f *appendable.IndexFile, df []byte, csv bool) (*Logical, error) {
	l := &Logical{Meta: map[indexKey]appendable.IndexMeta{}, Entries: map[indexKey][]Entry{}, Keys: map[indexKey][]pointer.ReferencedValue{}, pages: map[indexKey]*linkedpage.LinkedPage{}}
	fm, err := f.Metadata()
	if err != nil {
		return nil, fmt.Errorf("file metadata: %w", err)
	}
	l.File = *fm
	mp, err := f.Indexes()
	n := 0
	for {
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, fmt.Errorf("index list: %w", err)
		}
		m := appendable.IndexMeta{}
		if err := mp.UnmarshalMetadata(&m); err != nil {
			return nil, fmt.Errorf("index metadata: %w", err)
		}
		k := indexKey{m.FieldName, int(m.FieldType)}
		if _, dup := l.Meta[k]; dup {
			return nil, fmt.Errorf("index %v is listed twice", k)
		}
		l.Order = append(l.Order, k)
		l.Meta[k] = m
		l.pages[k] = mp
		t := treeOf(mp, k, df, csv)
		it, err2 := t.Iter(pointer.ReferencedValue{})
		if err2 != nil {
			return nil, fmt.Errorf("iterate %v: %w", k, err2)
		}
		for it.Next() {
			key, ptr := it.Key(), it.Pointer()
			l.Keys[k] = append(l.Keys[k], key)
			e := Entry{Field: k.Field, Type: k.Type, Val: string(key.Value), ROff: ptr.Offset, RLen: uint64(ptr.Length)}
			if gramSize[k.Type] == 0 {
				e.Off, e.Len = key.DataPointer.Offset, uint64(key.DataPointer.Length)
				if !csv {
					e.Off, e.Len = trimRange(df, key.DataPointer)
				}
			}
			l.Entries[k] = append(l.Entries[k], e)
			if n++; n > 5_000_000 {
				return nil, errors.New("endless iteration")
			}
		}
		if it.Err() != nil {
			return nil, fmt.Errorf("iterate %v: %w", k, it.Err())
		}
		mp, err = mp.Next()
	}
	return l, nil
}

// trimRange removes JSON whitespace from the ends of a data range: whether the
// range of a value includes the whitespace around it is not observable.
func trimRange(df []byte, p pointer.MemoryPointer) (uint64, uint64) {
	if p.Offset > uint64(len(df)) || p.Offset+uint64(p.Length) > uint64(len(df)) {
		return p.Offset, uint64(p.Length)
	}
	b := df[p.Offset : p.Offset+uint64(p.Length)]
	t := bytes.TrimLeft(b, " \t\r")
	off := p.Offset + uint64(len(b)-len(t))
	t = bytes.TrimRight(t, " \t\r")
	if len(t) == 0 {
		return p.Offset, uint64(p.Length)
	}
	return off, uint64(len(t))
}

func cmpKeys(a, b pointer.ReferencedValue) int {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c
	}
	switch {
	case a.DataPointer.Offset != b.DataPointer.Offset:
		if a.DataPointer.Offset < b.DataPointer.Offset {
			return -1
		}
		return 1
	case a.DataPointer.Length != b.DataPointer.Length:
		if a.DataPointer.Length < b.DataPointer.Length {
			return -1
		}
		return 1
	}
	return 0
}

type compareOpts struct {
	subset    bool // the index may hold more than the model (but only what `all` holds)
	all       *Model
	skipMeta  bool // counters may lag
	prefixCSV bool
}

// compare checks that an index holds exactly the model.
func compare(l *Logical, m *Model, o compareOpts) *Violation {
	for k, es := range l.Entries {
		for i := 1; i < len(es); i++ {
			if cmpKeys(l.Keys[k][i-1], l.Keys[k][i]) >= 0 {
				return viol("order", "index %v is iterated out of order: %v before %v", k, es[i-1], es[i])
			}
		}
	}
	full := m
	if o.subset {
		full = o.all
	}
	for _, k := range l.Order {
		if _, ok := full.Total[k]; !ok {
			if o.subset && len(l.Entries[k]) == 0 {
				continue
			}
			return viol("wrong-index", "there is an index for %q of type %d, which no record has", k.Field, k.Type)
		}
		if w := int(l.Meta[k].Width); w != widthOf(k.Type) {
			return viol("wrong-width", "index %v has width %d", k, w)
		}
	}
	for k, want := range m.Entries {
		if v := diffEntries(k, l.Entries[k], want, full.Entries[k], o.subset); v != nil {
			return v
		}
	}
	if !o.subset {
		for k := range m.Total {
			if _, ok := l.Meta[k]; !ok {
				return viol("missing-index", "there is no index for field %q of type %d", k.Field, k.Type)
			}
		}
	}
	for _, k := range l.Order {
		if _, ok := m.Entries[k]; !ok {
			if v := diffEntries(k, l.Entries[k], nil, full.Entries[k], o.subset); v != nil {
				return v
			}
		}
	}
	if o.subset || o.skipMeta {
		return nil
	}
	if l.File.Entries != m.Count {
		return viol("wrong-count", "the index counts %d entries, %d records are indexed", l.File.Entries, m.Count)
	}
	if l.File.ReadOffset != m.Read {
		return viol("wrong-offset", "the index has read to %d, complete records end at %d", l.File.ReadOffset, m.Read)
	}
	for k, want := range m.Total {
		if m.CSV {
			continue
		}
		if k.Type == tString || k.Type == tFloat {
			for _, rv := range l.Keys[k] {
				want += uint64(rv.DataPointer.Length)
			}
		}
		if got := l.Meta[k].TotalFieldValueLength; got != want {
			return viol("wrong-total", "index %v has a total value length of %d, expected %d", k, got, want)
		}
	}
	return nil
}

func diffEntries(k indexKey, got, want, full []Entry, subset bool) *Violation {
	g := append([]Entry(nil), got...)
	sortEntries(g)
	w := append([]Entry(nil), want...)
	sortEntries(w)
	// missing
	i := 0
	for _, e := range w {
		for i < len(g) && entryLess(g[i], e) {
			i++
		}
		if i >= len(g) || g[i] != e {
			return viol("missing-entry", "index %v lacks %v (%d of %d present)", k, e, len(g), len(w))
		}
		i++
	}
	f := w
	if subset {
		f = append([]Entry(nil), full...)
		sortEntries(f)
	}
	i = 0
	for _, e := range g {
		for i < len(f) && entryLess(f[i], e) {
			i++
		}
		if i >= len(f) || f[i] != e {
			return viol("wrong-entry", "index %v holds %v, which is not (or not that often) in the data", k, e)
		}
		i++
	}
	return nil
}

// probeLookups checks Find, Contains and iteration from arbitrary keys in both
// directions against the sorted contents.
func probeLookups(l *Logical, df []byte, csv bool, seed uint64, n int) *Violation {
	r := NewRng(seed)
	if len(l.Order) == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		k := l.Order[r.N(len(l.Order))]
		keys := l.Keys[k]
		var key pointer.ReferencedValue
		if len(keys) > 0 && r.P(0.7) {
			e := keys[r.N(len(keys))]
			key.Value = append([]byte(nil), e.Value...)
			switch r.N(4) {
			case 0:
				key.DataPointer = e.DataPointer
			case 1:
				key.Value = append(key.Value, byte(r.N(3)))
			case 2:
				if len(key.Value) > 0 {
					key.Value[len(key.Value)-1]++
				}
			}
		} else {
			key.Value = []byte(pick(r, []string{"", "a", "zz", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x00", "\x40\x10"}))
		}
		t := treeOf(l.pages[k], k, df, csv)
		if v := probeTree(t, keys, key, r.In(0, 4), fmt.Sprint(k)); v != nil {
			return v
		}
	}
	return nil
}

// probeTree compares one search with the sorted keys of a tree.
func probeTree(t *bptree.BPTree, keys []pointer.ReferencedValue, key pointer.ReferencedValue, walk int, what string) *Violation {
	at := sort.Search(len(keys), func(i int) bool { return cmpKeys(keys[i], key) >= 0 })
	got, _, err := t.Find(key)
	if err != nil {
		return viol("lookup-error", "Find(%v) in %s: %v", key, what, err)
	}
	if at < len(keys) && cmpKeys(got, keys[at]) != 0 {
		return viol("lookup", "Find(%q@%v) in %s (%d keys) gave %v, expected key #%d %v", key.Value, key.DataPointer, what, len(keys), got, at, keys[at])
	}
	if at >= len(keys) && (len(got.Value) != 0 || got.DataPointer != (pointer.MemoryPointer{})) {
		return viol("lookup", "Find(%v) in %s gave %v, expected nothing", key, what, got)
	}
	c, err := t.Contains(pointer.ReferencedValue{Value: key.Value})
	if err != nil {
		return viol("lookup-error", "Contains(%v) in %s: %v", key, what, err)
	}
	first := sort.Search(len(keys), func(i int) bool { return bytes.Compare(keys[i].Value, key.Value) >= 0 })
	if want := first < len(keys) && bytes.Equal(keys[first].Value, key.Value); want != c {
		return viol("contains", "Contains(%q) in %s (%d keys) gave %v", key.Value, what, len(keys), c)
	}
	if walk > 0 {
		it, err := t.Iter(key)
		if err != nil {
			return viol("lookup-error", "%v", err)
		}
		for i := at; i < at+walk; i++ {
			ok := it.Next()
			if it.Err() != nil {
				return viol("lookup-error", "Next in %s: %v", what, it.Err())
			}
			if ok != (i < len(keys)) {
				return viol("iterate", "Next #%d from %v in %s (%d keys, at %d) gave %v", i-at, key, what, len(keys), at, ok)
			}
			if !ok {
				break
			}
			if cmpKeys(it.Key(), keys[i]) != 0 {
				return viol("iterate", "Next #%d from %v in %s gave %v, expected %v", i-at, key, what, it.Key(), keys[i])
			}
		}
		it, err = t.Iter(key)
		if err != nil {
			return viol("lookup-error", "%v", err)
		}
		for i := at - 1; i >= at-walk; i-- {
			ok := it.Prev()
			if it.Err() != nil {
				return viol("lookup-error", "Prev in %s: %v", what, it.Err())
			}
			if ok != (i >= 0) {
				return viol("iterate", "Prev #%d from %v in %s (%d keys, at %d) gave %v", at-1-i, key, what, len(keys), at, ok)
			}
			if !ok {
				break
			}
			if cmpKeys(it.Key(), keys[i]) != 0 {
				return viol("iterate", "Prev #%d from %v in %s gave %v, expected %v", at-1-i, key, what, it.Key(), keys[i])
			}
		}
	}
	return nil
}

// logicalDiff compares two logical contents completely.
func logicalDiff(a, b *Logical) string {
	if a.File != b.File {
		return fmt.Sprintf("file metadata %+v and %+v", a.File, b.File)
	}
	if len(a.Order) != len(b.Order) {
		return fmt.Sprintf("%d and %d indexes", len(a.Order), len(b.Order))
	}
	for _, k := range a.Order {
		mb, ok := b.Meta[k]
		if !ok {
			return fmt.Sprintf("index %v is only in one", k)
		}
		if a.Meta[k] != mb {
			return fmt.Sprintf("metadata %+v and %+v", a.Meta[k], mb)
		}
		if len(a.Entries[k]) != len(b.Entries[k]) {
			return fmt.Sprintf("index %v has %d and %d entries", k, len(a.Entries[k]), len(b.Entries[k]))
		}
		for i := range a.Entries[k] {
			if a.Entries[k][i] != b.Entries[k][i] || cmpKeys(a.Keys[k][i], b.Keys[k][i]) != 0 {
				return fmt.Sprintf("index %v entry %d is %v and %v", k, i, a.Entries[k][i], b.Entries[k][i])
			}
		}
	}
	return ""
}

func short(s string, n int) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
