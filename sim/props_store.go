package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
)

func at(i int, v *Violation) *Violation {
	if v != nil {
		v.Step = i
	}
	return v
}

// ---------------------------------------------------------------- C04

type propC04 struct{}

type identity struct{}

func (identity) Parse(b []byte) []byte { return b }

const arenaSize = 1 << 16

var arenas = map[int64][]byte{}

// arena is the data file referenced keys point into.
func arena(kind int64) []byte {
	if a, ok := arenas[kind]; ok {
		return a
	}
	r := NewRng(uint64(kind) + 77)
	a := make([]byte, arenaSize)
	for i := range a {
		switch kind {
		case 0:
			a[i] = byte(r.U64())
		case 1:
			a[i] = "ab"[r.N(2)]
		case 2:
			a[i] = byte(i >> 6)
		default:
			a[i] = 'x'
		}
	}
	arenas[kind] = a
	return a
}

func (p propC04) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	w := int64(pick(r, []int{0, 0, 0, 1, 2, 3, 4, 9, 9, 9, 5, 17, 33, 129, 300, 700, 1000}))
	sc.Cfg["width"] = w
	sc.Cfg["style"] = int64(r.N(2))
	setGap(sc, r)
	sc.Cfg["arena"] = int64(r.N(4))
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	n := pick(r, []int{5, 60, 300, 800, 1500})
	if r.P(0.05) {
		n = 4000
	}
	if big && r.P(0.1) {
		n = 12000
	}
	if w > 100 {
		n = min(n, 1500)
	}
	order := r.N(4)      // random, ascending, descending, zigzag
	values := r.In(1, n) // number of distinct values
	if r.P(0.3) {
		values = r.In(1, 5)
	}
	bigptr := r.P(0.3)
	maxLen := pick(r, []int{0, 1, 3, 10, 100, 5000})
	checkP := 3 / float64(n)
	for i := 0; i < n; i++ {
		o := Op{K: "ins"}
		k := int64(r.N(values))
		switch order {
		case 1:
			k = int64(i * values / n)
		case 2:
			k = int64((n - i) * values / n)
		case 3:
			k = int64(i*values/n/2 + i%2*values/2)
		}
		if w == 0 {
			o.N = int64(mix(uint64(k)) % arenaSize)
			if order != 0 {
				o.N = k * arenaSize / int64(values+1)
			}
			o.L = int64(r.N(maxLen + 1))
			if o.N+o.L > arenaSize {
				o.L = arenaSize - o.N
			}
		} else {
			// inlined value number k
			o.B = inlineValue(uint64(k), int(w-1), r.P(0.5))
			o.N = int64(r.N(n * 2))
			if bigptr {
				o.N = int64(r.U64() >> uint(r.N(61)))
			}
			o.L = int64(r.N(300))
		}
		o.M = int64(r.U64() >> uint(1+r.N(50)))
		sc.Ops = append(sc.Ops, o)
		if r.P(0.02) {
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		}
		if r.P(0.03) {
			sc.Ops = append(sc.Ops, Op{K: "dup", N: int64(r.N(n))})
		}
		if r.P(0.05) {
			sc.Ops = append(sc.Ops, Op{K: "probe", N: int64(r.N(1 << 30)), M: int64(r.In(0, 8))})
		}
		if r.P(0.02) {
			sc.Ops = append(sc.Ops, Op{K: "walk", N: int64(r.N(1 << 30)), M: int64(r.In(1, 60))})
		}
		if w != 0 && r.P(0.01) {
			sc.Ops = append(sc.Ops, Op{K: "badwidth", N: int64(r.N(2 * int(w)))})
		}
		if r.P(checkP) {
			sc.Ops = append(sc.Ops, Op{K: "all"})
		}
	}
	for i := 0; i < 20; i++ {
		sc.Ops = append(sc.Ops, Op{K: "probe", N: int64(r.N(1 << 30)), M: int64(r.In(0, 8))})
	}
	sc.Ops = append(sc.Ops, Op{K: "walk", N: int64(r.N(1 << 30)), M: 100}, Op{K: "reopen"}, Op{K: "all"})
	if x := NewRng(mix(r.s ^ 0xc04)); w == 3 && x.P(0.04) {
		// short keys with long pointers: inner nodes of more than 255 children
		sc.Ops = append([]Op{{K: "bulk", M: int64(x.In(20000, 60000)), N: int64(x.N(2))}}, sc.Ops...)
	}
	return sc
}

// bulkKey is the i-th of n keys of a tree of width 3.
func bulkKey(i, n int64) (pointer.ReferencedValue, int64) {
	return pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 7}, Value: inlineValue(uint64(i*65536/n), 2, false)}, int64(mix(uint64(i)) >> 1)
}

func inlineValue(k uint64, n int, le bool) []byte {
	var x [8]byte
	if le {
		binary.LittleEndian.PutUint64(x[:], k)
	} else {
		binary.BigEndian.PutUint64(x[:], k)
	}
	b := make([]byte, n)
	if le {
		copy(b, x[:])
	} else if n >= 8 {
		copy(b[n-8:], x[:])
	} else {
		copy(b, x[8-n:])
	}
	return b
}

type treeWorld struct {
	disk  *Disk
	st    *Stats
	short uint64
	width uint16
	data  []byte
	tree  *bptree.BPTree
	sess  *Sess
	keys  []pointer.ReferencedValue
	ptrs  []pointer.MemoryPointer
	order []pointer.ReferencedValue // in insertion order
}

func (w *treeWorld) open() error {
	s := NewSess(w.disk, w.st)
	s.short = w.short
	w.sess = s
	return try(func() error {
		pf, err := pagefile.NewPageFile(s.Handle())
		if err != nil {
			return err
		}
		lp, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return err
		}
		n, err := lp.Next()
		if err == io.EOF {
			n, err = lp.AddNext()
		}
		if err != nil {
			return err
		}
		w.tree = n.BPTree(&bptree.BPTree{Data: w.data, DataParser: identity{}, Width: w.width})
		return nil
	})
}

func (w *treeWorld) key(o *Op) (pointer.ReferencedValue, bool) {
	if w.width == 0 {
		if o.N < 0 || o.L < 0 || o.N+o.L > arenaSize {
			return pointer.ReferencedValue{}, false
		}
		return pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(o.N), Length: uint32(o.L)}, Value: w.data[o.N : o.N+o.L]}, true
	}
	if len(o.B) != int(w.width)-1 {
		return pointer.ReferencedValue{}, false
	}
	return pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(o.N), Length: uint32(o.L)}, Value: append([]byte(nil), o.B...)}, true
}

func (w *treeWorld) insert(key pointer.ReferencedValue, m int64) *Violation {
	ptr := pointer.MemoryPointer{Offset: uint64(m), Length: uint32(m % 100003)}
	i := sort.Search(len(w.keys), func(i int) bool { return cmpKeys(w.keys[i], key) >= 0 })
	dup := i < len(w.keys) && cmpKeys(w.keys[i], key) == 0
	var before []byte
	if dup {
		before = append(before, w.disk.buf...)
	}
	err := try(func() error { return w.tree.Insert(key, ptr) })
	if isPanic(err) {
		return viol("panic", "Insert: %v", err)
	}
	if dup {
		w.st.Probe("duplicate")
		if err == nil {
			return viol("duplicate", "inserting %v a second time succeeded", key)
		}
		if !bytes.Equal(before, w.disk.buf) {
			return viol("refused-insert-writes", "refusing a duplicate key changed the file")
		}
		return nil
	}
	if err != nil {
		return viol("insert-error", "Insert(%v) into %d keys: %v", key, len(w.keys), err)
	}
	w.keys = append(w.keys, pointer.ReferencedValue{})
	copy(w.keys[i+1:], w.keys[i:])
	w.keys[i] = key
	w.ptrs = append(w.ptrs, pointer.MemoryPointer{})
	copy(w.ptrs[i+1:], w.ptrs[i:])
	w.ptrs[i] = ptr
	w.order = append(w.order, key)
	return nil
}

func (w *treeWorld) probe(seed uint64, walk int) (v *Violation) {
	r := NewRng(seed)
	var key pointer.ReferencedValue
	if len(w.keys) > 0 && r.P(0.8) {
		e := w.keys[r.N(len(w.keys))]
		if r.P(0.3) {
			e = w.keys[[]int{0, len(w.keys) - 1}[r.N(2)]]
		}
		key.Value = append([]byte(nil), e.Value...)
		switch r.N(8) {
		case 0:
		case 1:
			key.DataPointer = e.DataPointer
		case 2:
			key.DataPointer = e.DataPointer
			key.DataPointer.Length++
		case 3:
			if e.DataPointer.Offset > 0 {
				key.DataPointer = e.DataPointer
				key.DataPointer.Offset--
			}
		case 4:
			key.Value = append(key.Value, 0)
		case 5:
			if len(key.Value) > 0 {
				key.Value = key.Value[:len(key.Value)-1]
			}
		case 6:
			key.DataPointer = pointer.MemoryPointer{Offset: math.MaxUint64, Length: math.MaxUint32}
		case 7:
			key.DataPointer = pointer.MemoryPointer{Offset: math.MaxUint64} // behind every key of the value
		}
	} else {
		for n := r.N(6); n > 0; n-- {
			key.Value = append(key.Value, byte(r.U64()))
		}
	}
	err := try(func() error {
		v = probeTree(w.tree, w.keys, key, walk, fmt.Sprintf("a tree of width %d", w.width))
		return nil
	})
	if err != nil {
		return viol("panic", "searching %v: %v", key, err)
	}
	return v
}

// walk moves an iterator back and forth.
func (w *treeWorld) walk(seed uint64, n int) (v *Violation) {
	if len(w.keys) == 0 {
		return nil
	}
	r := NewRng(seed)
	pos := r.N(len(w.keys))
	err := try(func() error {
		it, err := w.tree.Iter(w.keys[pos])
		if err != nil {
			return err
		}
		first := true
		for i := 0; i < n; i++ {
			fwd := r.P(0.5)
			if r.P(0.5) {
				fwd = r.P(0.9) // long runs in one direction
			}
			next := pos - 1
			if fwd {
				next = pos + 1
				if first {
					next = pos
				}
			}
			var ok bool
			if fwd {
				ok = it.Next()
			} else {
				ok = it.Prev()
			}
			first = false
			if it.Err() != nil {
				return it.Err()
			}
			if ok != (next >= 0 && next < len(w.keys)) {
				v = viol("iterate", "step %d of a walk (forward %v) from key %d of %d gave %v", i, fwd, pos, len(w.keys), ok)
				return nil
			}
			if !ok {
				// it stays at the end
				for j := 0; j < 2; j++ {
					if fwd && it.Next() || !fwd && it.Prev() {
						v = viol("iterate", "an iterator that reached the end went on")
					}
				}
				return nil
			}
			pos = next
			if cmpKeys(it.Key(), w.keys[pos]) != 0 || it.Pointer() != w.ptrs[pos] {
				v = viol("iterate", "step %d of a walk (forward %v) gave %v %v, expected key %d %v %v", i, fwd, it.Key(), it.Pointer(), pos, w.keys[pos], w.ptrs[pos])
				return nil
			}
		}
		return nil
	})
	if err != nil {
		return viol("lookup-error", "walking: %v", err)
	}
	return v
}

func (w *treeWorld) all() (v *Violation) {
	err := try(func() error {
		for dir := 0; dir < 2 && v == nil; dir++ {
			key := pointer.ReferencedValue{}
			if dir == 1 {
				key = pointer.ReferencedValue{Value: bytes.Repeat([]byte{255}, 6000), DataPointer: pointer.MemoryPointer{Offset: math.MaxUint64, Length: math.MaxUint32}}
			}
			it, err := w.tree.Iter(key)
			if err != nil {
				return err
			}
			n := 0
			for dir == 0 && it.Next() || dir == 1 && it.Prev() {
				j := n
				if dir == 1 {
					j = len(w.keys) - 1 - n
				}
				if j < 0 || j >= len(w.keys) {
					v = viol("iterate", "iterating found more than the %d keys of the tree", len(w.keys))
					return nil
				}
				if cmpKeys(it.Key(), w.keys[j]) != 0 || it.Pointer() != w.ptrs[j] {
					v = viol("contents", "key %d of %d is %v %v, expected %v %v", j, len(w.keys), it.Key(), it.Pointer(), w.keys[j], w.ptrs[j])
					return nil
				}
				n++
			}
			if it.Err() != nil {
				return it.Err()
			}
			if n != len(w.keys) {
				v = viol("contents", "iterating (direction %d) found %d of %d keys", dir, n, len(w.keys))
			}
		}
		return nil
	})
	if err != nil {
		return viol("lookup-error", "iterating: %v", err)
	}
	return v
}

func (p propC04) Run(sc *Scenario, st *Stats) *Violation {
	w := &treeWorld{disk: &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}, st: st, short: uint64(sc.Cfg["short"]), width: uint16(sc.Cfg["width"]), data: arena(sc.Cfg["arena"])}
	if err := w.open(); err != nil {
		return viol("open-error", "%v", err)
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		st.Ops++
		switch o.K {
		case "ins":
			if k, ok := w.key(o); ok {
				v = w.insert(k, o.M)
			}
		case "bulk":
			for k := int64(0); k < o.M && v == nil && w.width == 3; k++ {
				j := k
				if o.N == 1 {
					j = o.M - 1 - k
				}
				key, m := bulkKey(j, o.M)
				v = w.insert(key, m)
			}
			st.Probe("bulk")
		case "dup":
			if len(w.order) > 0 {
				v = w.insert(w.order[int(o.N)%len(w.order)], 1)
			}
		case "badwidth":
			if w.width == 0 || o.N == int64(w.width)-1 || o.N < 0 {
				break
			}
			before := append([]byte(nil), w.disk.buf...)
			err := try(func() error {
				return w.tree.Insert(pointer.ReferencedValue{Value: make([]byte, o.N)}, pointer.MemoryPointer{})
			})
			if err == nil || isPanic(err) {
				v = viol("bad-width", "inserting a value of %d bytes into a tree of width %d: %v", o.N, w.width, err)
			} else if !bytes.Equal(before, w.disk.buf) {
				v = viol("refused-insert-writes", "refusing a value of the wrong width changed the file")
			}
		case "reopen":
			if err := w.open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		case "probe":
			v = w.probe(uint64(o.N), int(o.M))
		case "walk":
			v = w.walk(uint64(o.N), int(o.M))
		case "all":
			v = w.all()
		}
		if v != nil {
			return at(i, v)
		}
	}
	st.curTriv = len(w.keys) > 1
	if n := len(w.disk.buf) / 4096; n > 4 {
		st.Probe("several-leaves")
		if n > 300 {
			st.Probe(">300-pages")
		}
	}
	return nil
}

// ---------------------------------------------------------------- C08

type propC08 struct{}

func (p propC08) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["style"] = int64(r.N(2))
	setGap(sc, r)
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	n := pick(r, []int{10, 100, 400})
	free := r.F()
	faults := r.P(0.4)
	if r.P(0.2) {
		// around the capacity of the free list
		n = r.In(10, 600)
		sc.Ops = append(sc.Ops, Op{K: "bulknew", N: int64(r.In(300, 700))})
		if r.P(0.8) {
			sc.Ops = append(sc.Ops, Op{K: "bulkfree", N: int64(r.In(300, 520)), M: int64(r.N(1000))})
		}
	}
	for i := 0; i < n; i++ {
		var f *Fault
		if faults && r.P(0.15) {
			f = &Fault{Kind: pick(r, []string{"werr", "err", "errp", "full", "crash"}), At: int64(r.N(6))}
		}
		switch r.N(12) {
		case 0:
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		case 1:
			sc.Ops = append(sc.Ops, Op{K: "badfree", N: int64(r.N(4)), M: int64(r.N(1000))})
		case 2:
			sc.Ops = append(sc.Ops, Op{K: "badnew", N: int64(r.In(4097, 9000))})
		case 3:
			if r.P(0.1) {
				sc.Ops = append(sc.Ops, Op{K: "bulknew", N: int64(r.In(2, 40))})
			} else if r.P(0.2) {
				sc.Ops = append(sc.Ops, Op{K: "bulkfree", N: int64(r.In(2, 40)), M: int64(r.N(1000))})
			}
		default:
			if r.P(free) {
				sc.Ops = append(sc.Ops, Op{K: "free", N: int64(r.N(1000)), F: f})
			} else {
				sc.Ops = append(sc.Ops, Op{K: "new", N: int64(pick(r, []int{0, 1, 100, 4095, 4096})), M: int64(r.N(1 << 30)), F: f})
			}
		}
		if r.P(0.03) {
			sc.Ops = append(sc.Ops, Op{K: "verify"})
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "verify"}, Op{K: "drain"}, Op{K: "verify"})
	return sc
}

func (p propC08) Run(sc *Scenario, st *Stats) *Violation {
	const page, capacity = 4096, 512
	d := &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}
	var sess *Sess
	var pf *pagefile.PageFile
	open := func() error {
		sess = NewSess(d, st)
		sess.short = uint64(sc.Cfg["short"])
		return try(func() (err error) {
			pf, err = pagefile.NewPageFile(sess.Handle())
			return err
		})
	}
	if err := open(); err != nil {
		return viol("open-error", "%v", err)
	}
	if d.gap != 0 {
		// begin with a file that reaches to the end of the gap
		d.buf = append(d.buf, make([]byte, gapAt-len(d.buf))...)
		if err := open(); err != nil {
			return viol("open-error", "a file of %d bytes: %v", d.size(), err)
		}
	}
	live := map[int64][]byte{}
	var order []int64
	free := map[int64]bool{}
	limbo := map[int64]bool{} // a failed call may or may not have released it
	verify := func() *Violation {
		for _, off := range order {
			c := live[off]
			if off+page > d.size() {
				return viol("lost-page", "page at %d is beyond the end of the file (%d)", off, d.size())
			}
			if !bytes.Equal(d.page(off), c) {
				return viol("overwritten", "the live page at %d changed", off)
			}
		}
		if n := pf.PageCount(); n != d.size()/page {
			return viol("page-count", "PageCount is %d, the file has %d bytes", n, d.size())
		}
		return nil
	}
	alloc := func(buf []byte, f *Fault) *Violation {
		size, had := d.size(), len(d.buf)
		sess.Begin(f)
		var off int64
		var err error
		died := crashed(func() { err = try(func() (err error) { off, err = pf.NewPage(buf); return err }) })
		sess.End()
		if isPanic(err) {
			return viol("panic", "NewPage: %v", err)
		}
		if died || err != nil {
			if f == nil {
				return viol("new-error", "NewPage: %v", err)
			}
			// at most one page left the free list
			for o := range free {
				limbo[o] = true
			}
			free = map[int64]bool{}
			if died {
				d.buf = d.buf[:len(d.buf)/page*page]
				if err := open(); err != nil {
					return viol("open-error", "after a crash in NewPage: %v", err)
				}
			} else if len(d.buf) != had {
				// growing succeeded but the call failed: the page is lost
				if err := open(); err != nil {
					return viol("open-error", "%v", err)
				}
			}
			return nil
		}
		if off <= 0 || off%page != 0 {
			return viol("bad-offset", "NewPage returned %d", off)
		}
		if _, ok := live[off]; ok {
			return viol("double-allocation", "NewPage returned the live page %d", off)
		}
		if off+page > d.size() {
			return viol("bad-offset", "NewPage returned %d in a file of %d bytes", off, d.size())
		}
		if len(d.buf) > had && len(free) > 0 {
			return viol("not-reused", "the file grew although %d pages are free", len(free))
		}
		if len(d.buf) > had && (off != size || len(d.buf) != had+page) {
			return viol("bad-growth", "the file grew from %d to %d for a page at %d", size, d.size(), off)
		}
		if len(d.buf) == had && !free[off] && !limbo[off] {
			return viol("bad-reuse", "NewPage reused %d, which was never released", off)
		}
		if len(free) > 0 && !free[off] && !limbo[off] {
			return viol("bad-reuse", "NewPage reused %d, which is not free", off)
		}
		delete(free, off)
		delete(limbo, off)
		c := make([]byte, page)
		copy(c, buf)
		live[off] = c
		order = append(order, off)
		if !bytes.Equal(d.page(off), c) {
			return viol("bad-content", "the new page at %d does not have the content given", off)
		}
		return nil
	}
	release := func(i int, f *Fault) *Violation {
		if len(order) == 0 {
			return nil
		}
		i %= len(order)
		off := order[i]
		sess.Begin(f)
		var err error
		before := append([]byte(nil), d.buf...)
		died := crashed(func() { err = try(func() error { return pf.FreePage(off) }) })
		fired := sess.fired
		sess.End()
		if isPanic(err) {
			return viol("panic", "FreePage with %d free pages: %v", len(free), err)
		}
		full := len(free)+len(limbo) >= capacity
		switch {
		case died:
			limbo[off] = true // nobody knows
			delete(live, off)
			order = append(order[:i], order[i+1:]...)
			if err := open(); err != nil {
				return viol("open-error", "after a crash in FreePage: %v", err)
			}
		case err != nil && fired, err != nil && full:
			// still live
			if !bytes.Equal(before, d.buf) {
				return viol("refused-free-writes", "FreePage(%d) failed (%v) but changed the file", off, err)
			}
		case err != nil:
			return viol("free-error", "FreePage(%d) with %d free pages: %v", off, len(free), err)
		default:
			if len(free) >= capacity {
				return viol("free-overflow", "the free list took page %d", len(free)+1)
			}
			free[off] = true
			delete(live, off)
			order = append(order[:i], order[i+1:]...)
		}
		return nil
	}
	content := func(n, seed int64) []byte {
		if n == 0 && seed%2 == 0 {
			return nil
		}
		b := make([]byte, n)
		r := NewRng(uint64(seed))
		for i := range b {
			b[i] = byte(r.U64()) | 1
		}
		return b
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		st.Ops++
		switch o.K {
		case "new":
			v = alloc(content(min(o.N, page), o.M), o.F)
		case "bulknew":
			for k := int64(0); k < o.N && v == nil; k++ {
				v = alloc(content(8, k), nil)
			}
		case "free":
			v = release(int(o.N), o.F)
		case "bulkfree":
			for k := int64(0); k < o.N && v == nil; k++ {
				v = release(int(o.M+k*7), nil)
			}
		case "badfree":
			var off int64
			switch o.N {
			case 0:
				off = 0
			case 1:
				off = page*2 + 1 + o.M
				if off%page == 0 {
					off++
				}
			case 2:
				off = -page
			case 3:
				var fs []int64
				for f := range free {
					fs = append(fs, f)
				}
				if len(fs) == 0 {
					continue
				}
				sort.Slice(fs, func(i, j int) bool { return fs[i] < fs[j] })
				off = fs[int(o.M)%len(fs)]
			}
			before := append([]byte(nil), d.buf...)
			sess.Begin(nil)
			err := try(func() error { return pf.FreePage(off) })
			if isPanic(err) {
				v = viol("panic", "FreePage(%d): %v", off, err)
			} else if err == nil {
				v = viol("bad-free", "FreePage(%d) succeeded", off)
			} else if !bytes.Equal(before, d.buf) {
				v = viol("refused-free-writes", "FreePage(%d) was refused but changed the file", off)
			}
		case "badnew":
			if o.N <= page {
				break
			}
			before := append([]byte(nil), d.buf...)
			sess.Begin(nil)
			err := try(func() error { _, err := pf.NewPage(make([]byte, o.N)); return err })
			if err == nil || isPanic(err) {
				v = viol("bad-new", "NewPage of %d bytes: %v", o.N, err)
			} else if !bytes.Equal(before, d.buf) {
				v = viol("refused-new-writes", "NewPage of %d bytes was refused but changed the file", o.N)
			}
		case "reopen":
			if err := open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		case "verify":
			v = verify()
		case "drain":
			for len(free) > 0 && v == nil {
				v = alloc(nil, nil)
			}
		}
		if v == nil && i%16 == 0 {
			v = verify()
		}
		if v != nil {
			return at(i, v)
		}
		if len(free) == capacity {
			st.Probe("free-list-full")
		}
	}
	st.curTriv = len(order) > 1
	return nil
}

// ---------------------------------------------------------------- C09

type propC09 struct{}

func (p propC09) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["style"] = int64(r.N(2))
	setGap(sc, r)
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	n := r.In(3, 150)
	many := r.P(0.02)
	if many {
		n = r.In(250, 500)
	}
	if r.P(0.5) {
		// raw slots
		add := r.F()
		if many {
			add = 0.5 + add/2
		}
		maxLen := 252
		if r.P(0.02) {
			maxLen = 255
		}
		for i := 0; i < n; i++ {
			switch {
			case r.P(add):
				sc.Ops = append(sc.Ops, Op{K: "add"})
			case r.P(0.4):
				sc.Ops = append(sc.Ops, Op{K: "root", N: int64(r.N(1000)), M: int64(r.U64() >> 1), L: int64(r.N(1 << 31))})
			case r.P(0.8):
				l := r.N(maxLen + 1)
				if r.P(0.3) {
					l = maxLen - r.N(4)
				}
				sc.Ops = append(sc.Ops, Op{K: "meta", N: int64(r.N(1000)), M: int64(r.N(1 << 30)), L: int64(l)})
			case r.P(0.3):
				sc.Ops = append(sc.Ops, Op{K: "badmeta", N: int64(r.N(1000)), L: int64(r.In(256, 600))})
			case r.P(0.3):
				sc.Ops = append(sc.Ops, Op{K: "badadd", N: int64(r.N(1000))})
			case r.P(0.5):
				sc.Ops = append(sc.Ops, Op{K: "page"})
			default:
				sc.Ops = append(sc.Ops, Op{K: "reopen"})
			}
		}
		if r.P(0.5) {
			// values close to the ones they replace
			for i := range sc.Ops {
				switch o := &sc.Ops[i]; {
				case !r.P(0.4):
				case o.K == "root":
					o.S = pick(r, []string{"same", "first", "last", "last", "zeros"})
				case o.K == "meta":
					o.S = pick(r, []string{"same", "cut", "cut", "first", "last", "zeros", "longer"})
				}
			}
		}
		if r.P(0.4) {
			for i := range sc.Ops {
				if r.P(0.3) {
					sc.Ops[i].F = &Fault{Kind: pick(r, []string{"err", "err", "errp"})}
				}
			}
		}
		sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "verify"})
		return sc
	}
	// named indexes
	sc.Cfg["named"] = 1
	k := pick(r, []int{3, 14, 15, 16, 29, 31, 60})
	if many {
		k = 1000
	}
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		case 1:
			if r.P(0.5) {
				sc.Ops = append(sc.Ops, Op{K: "verify"})
			} else {
				sc.Ops = append(sc.Ops, Op{K: "file", N: int64(r.U64() >> uint(1+r.N(60))), M: int64(r.U64() >> uint(1+r.N(60)))})
			}
		case 2:
			sc.Ops = append(sc.Ops, Op{K: "total", N: int64(r.N(1000)), M: int64(r.U64() >> uint(1+r.N(60)))})
		default:
			name := fmt.Sprint("f", r.N(k))
			if r.P(0.1) {
				name = strings.Repeat(name, r.In(1, 130))
			}
			if r.P(0.1) {
				name = strings.Repeat("same", r.In(1, 50)) + name // long names that differ at their end
			}
			if r.P(0.1) {
				name = strings.Repeat("z", r.In(225, 262))
			}
			sc.Ops = append(sc.Ops, Op{K: "name", S: name, N: int64(r.N(11)), M: int64(r.N(4)), L: int64(r.N(1 << 30))})
		}
	}
	if r.P(0.5) {
		for i := range sc.Ops {
			switch o := &sc.Ops[i]; {
			case !r.P(0.5):
			case o.K == "file":
				o.S = pick(r, []string{"offset", "count", "same"})
			case o.K == "total":
				o.S = pick(r, []string{"near", "near", "same"})
			}
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "verify"})
	return sc
}

func (p propC09) Run(sc *Scenario, st *Stats) *Violation {
	d := &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}
	if sc.Cfg["named"] != 0 {
		return p.named(sc, st, d)
	}
	var pf *pagefile.PageFile
	var head *linkedpage.LinkedPage
	open := func() error {
		s := NewSess(d, st)
		s.short = uint64(sc.Cfg["short"])
		return try(func() (err error) {
			pf, err = pagefile.NewPageFile(s.Handle())
			if err != nil {
				return err
			}
			head, err = linkedpage.NewMultiBPTree(pf, 0)
			return err
		})
	}
	if err := open(); err != nil {
		return viol("open-error", "%v", err)
	}
	type slot = rawSlot
	var slots []slot
	spill := false
	list := func() ([]*linkedpage.LinkedPage, error) { return listSlots(head, len(slots)+2) }
	verify := func() *Violation {
		ps, err := list()
		if err != nil {
			return viol("list-error", "%v", err)
		}
		if len(ps) != len(slots) {
			return viol("slot-count", "%d slots are listed, %d were created", len(ps), len(slots))
		}
		if v := collected(head, slots2roots(len(slots), func(i int) pointer.MemoryPointer { return slots[i].root })); v != nil {
			return v
		}
		for i, s := range slots {
			root, err := ps[i].Root()
			if err != nil {
				return viol("read-error", "%v", err)
			}
			meta, err := ps[i].Metadata()
			if err != nil {
				return viol("read-error", "%v", err)
			}
			if root != s.root {
				return viol("wrong-root", "slot %d of %d has root %v, %v was set", i, len(slots), root, s.root)
			}
			if !bytes.Equal(meta, s.meta) {
				return viol("wrong-metadata", "slot %d of %d has other metadata than was set (%d and %d bytes)", i, len(slots), len(meta), len(s.meta))
			}
		}
		return nil
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		ps, err := list()
		if err != nil || len(ps) != len(slots) {
			v := viol("slot-count", "%d slots are listed (%v), %d were created", len(ps), err, len(slots))
			return at(i, v)
		}
		var v *Violation
		k := 0
		if len(slots) > 0 {
			k = int(o.N) % len(slots)
		}
		if o.F != nil && (o.K == "add" || o.K == "root" || o.K == "meta" && o.L <= 255) {
			if v := sweepSlot(d, st, *o, k, slots); v != nil {
				if o.K == "meta" && o.L > 252 {
					v.Sig = "slot-metadata-over-252-bytes"
				}
				return at(i, v)
			}
		}
		if o.F != nil && o.K == "page" {
			if v := sweepList(d, st, o.F.Kind, slots); v != nil {
				return at(i, v)
			}
		}
		switch o.K {
		case "add":
			last := head
			if len(ps) > 0 {
				last = ps[len(ps)-1]
			}
			var n *linkedpage.LinkedPage
			err := try(func() (err error) { n, err = last.AddNext(); return err })
			if err != nil {
				v = viol("add-error", "AddNext after %d slots: %v", len(slots), err)
				break
			}
			slots = append(slots, slot{})
			if m, err := n.Metadata(); err != nil || len(m) != 0 {
				v = viol("dirty-slot", "a new slot has metadata %q (%v)", m, err)
			}
		case "badadd":
			if len(ps) > 1 && k < len(ps)-1 {
				before := append([]byte(nil), d.buf...)
				if _, err := ps[k].AddNext(); err == nil {
					v = viol("bad-add", "AddNext on slot %d of %d succeeded", k, len(ps))
				} else if !bytes.Equal(before, d.buf) {
					v = viol("refused-add-writes", "a refused AddNext changed the file")
				}
			}
		case "root":
			if len(ps) > 0 {
				mp := slotRoot(*o, slots[k].root)
				if err := ps[k].SetRoot(mp); err != nil {
					v = viol("write-error", "%v", err)
				}
				slots[k].root = mp
			}
		case "meta":
			if len(ps) > 0 && o.L <= 255 {
				b := slotMeta(*o, slots[k].meta)
				if o.L > 252 {
					spill = true
				}
				err := try(func() error { return ps[k].SetMetadata(b) })
				if err != nil {
					v = viol("write-error", "SetMetadata of %d bytes: %v", o.L, err)
				}
				slots[k].meta = b
			}
		case "badmeta":
			if len(ps) > 0 && o.L > 255 {
				if err := ps[k].SetMetadata(make([]byte, o.L)); err == nil {
					v = viol("bad-meta", "SetMetadata of %d bytes succeeded", o.L)
				}
			}
		case "page":
			// somebody else takes a page
			if _, err := pf.NewPage(bytes.Repeat([]byte{0xff}, 4096)); err != nil {
				v = viol("write-error", "%v", err)
			}
		case "reopen":
			if err := open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		}
		if v == nil {
			err := try(func() error { v = verify(); return nil })
			if err != nil {
				v = viol("panic", "%v", err)
			}
		}
		if v != nil {
			if spill {
				v.Sig = "slot-metadata-over-252-bytes"
			}
			return at(i, v)
		}
	}
	if len(slots) > 15 {
		st.Probe("second-page")
	}
	st.curTriv = len(slots) > 1
	return nil
}

// rawSlot is what a slot of a list of metadata slots should hold.
type rawSlot struct {
	root pointer.MemoryPointer
	meta []byte
}

// slotMeta is the metadata an operation stores in a slot that has some already.
func slotMeta(o Op, current []byte) []byte {
	n := len(current)
	switch b := slices.Clone(current); {
	case o.S == "same":
		return b
	case o.S == "cut" && n > 0:
		return b[:int(o.M)%n]
	case o.S == "first" && n > 0:
		b[0]++
		return b
	case o.S == "last" && n > 0:
		b[n-1] ^= 1
		return b
	case o.S == "zeros":
		return make([]byte, o.L)
	case o.S == "longer" && n < int(o.L):
		return append(b, make([]byte, int(o.L)-n)...)
	}
	b := make([]byte, o.L)
	r := NewRng(uint64(o.M))
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// listSlots follows a list of slots, up to max of them.
func listSlots(head *linkedpage.LinkedPage, max int) (out []*linkedpage.LinkedPage, err error) {
	err = try(func() error {
		m := head
		for {
			n, err := m.Next()
			if err == io.EOF {
				return nil
			}
			if err != nil {
				return err
			}
			out = append(out, n)
			if len(out) > max {
				return nil
			}
			m = n
		}
	})
	return
}

// slotRoot is the root an operation stores in a slot that has one already.
func slotRoot(o Op, current pointer.MemoryPointer) pointer.MemoryPointer {
	switch o.S {
	case "first":
		current.Offset ^= 1 << (o.M % 64)
	case "last":
		current.Length ^= 1 << (o.L % 32)
	case "zeros":
		current = pointer.MemoryPointer{}
	case "":
		current = pointer.MemoryPointer{Offset: uint64(o.M), Length: uint32(o.L)}
	}
	return current
}

// sweepSlot repeats one operation on a list of slots with a storage error at
// each of its operations: an operation that reports success has had its effect,
// and one that fails leaves the other slots as they were.
func sweepSlot(disk *Disk, st *Stats, o Op, k int, slots []rawSlot) *Violation {
	st.Probe("slot-operation-swept")
	open := func(d *Disk) (*Sess, *linkedpage.LinkedPage, error) {
		s := NewSess(d, st)
		var head *linkedpage.LinkedPage
		err := try(func() error {
			pf, err := pagefile.NewPageFile(s.Handle())
			if err != nil {
				return err
			}
			head, err = linkedpage.NewMultiBPTree(pf, 0)
			return err
		})
		return s, head, err
	}
	for n := int64(0); n < 60; n++ {
		d := disk.Clone()
		s, head, err := open(d)
		if err != nil {
			return viol("open-error", "%v", err)
		}
		ps, err := listSlots(head, len(slots)+2)
		if err != nil || len(ps) != len(slots) {
			return viol("slot-count", "%d slots are listed (%v), %d were created", len(ps), err, len(slots))
		}
		want := slices.Clone(slots)
		s.Begin(&Fault{Kind: o.F.Kind, At: n})
		err = try(func() error {
			switch o.K {
			case "add":
				last := head
				if len(ps) > 0 {
					last = ps[len(ps)-1]
				}
				want = append(want, rawSlot{})
				_, err := last.AddNext()
				return err
			case "root":
				if len(ps) == 0 {
					return nil
				}
				want[k].root = slotRoot(o, want[k].root)
				return ps[k].SetRoot(want[k].root)
			}
			if len(ps) == 0 {
				return nil
			}
			want[k].meta = slotMeta(o, want[k].meta)
			return ps[k].SetMetadata(want[k].meta)
		})
		fired := s.fired
		s.End()
		what := fmt.Sprintf("%q with %d slots, %s at operation %d", o.K, len(slots), o.F.Kind, n)
		if isPanic(err) {
			return viol("panic", "%s: %v", what, err)
		}
		if err != nil && !fired {
			return viol("write-error", "%s: %v", what, err)
		}
		if !fired {
			break
		}
		_, head, oerr := open(d)
		if oerr != nil {
			return viol("open-error", "%s: %v", what, oerr)
		}
		got, lerr := listSlots(head, len(want)+2)
		if lerr != nil || len(got) != len(want) && (err == nil || len(got) != len(slots)) {
			return viol("slot-count", "after %s (%v), %d slots are listed (%v), there were %d", what, err, len(got), lerr, len(slots))
		}
		for x := range got {
			if err != nil && (x == k && o.K != "add" || x >= len(slots)) {
				continue
			}
			root, rerr := got[x].Root()
			if rerr != nil || root != want[x].root {
				return viol("wrong-root", "after %s (%v): slot %d of %d has root %v (%v), %v was set", what, err, x, len(got), root, rerr, want[x].root)
			}
			meta, merr := got[x].Metadata()
			if merr != nil || !bytes.Equal(meta, want[x].meta) {
				return viol("wrong-metadata", "after %s (%v): slot %d of %d has other metadata than was set (%d and %d bytes, %v)", what, err, x, len(got), len(meta), len(want[x].meta), merr)
			}
		}
	}
	return nil
}

// sweepList reads a list of slots with a storage error at each operation: what
// is read without an error is what was set.
func sweepList(disk *Disk, st *Stats, kind string, slots []rawSlot) *Violation {
	st.Probe("slot-list-swept")
	s := NewSess(disk, st)
	var head *linkedpage.LinkedPage
	err := try(func() error {
		pf, err := pagefile.NewPageFile(s.Handle())
		if err != nil {
			return err
		}
		head, err = linkedpage.NewMultiBPTree(pf, 0)
		return err
	})
	if err != nil {
		return viol("open-error", "%v", err)
	}
	for n := int64(0); n < 400; n++ {
		for _, collect := range []bool{false, true} {
			var ps []*linkedpage.LinkedPage
			var got []rawSlot
			s.Begin(&Fault{Kind: kind, At: n})
			err := try(func() (err error) {
				if collect {
					ps, err = head.Collect()
				} else {
					ps, err = listSlots(head, len(slots)+2)
				}
				for _, x := range ps {
					if err != nil {
						return err
					}
					var r rawSlot
					if r.root, err = x.Root(); err == nil {
						r.meta, err = x.Metadata()
					}
					got = append(got, r)
				}
				return err
			})
			fired := s.fired
			s.End()
			if !fired && collect {
				return nil
			}
			if err != nil && fired {
				if isPanic(err) {
					return viol("panic", "reading %d slots, %s at operation %d: %v", len(slots), kind, n, err)
				}
				continue
			}
			if err != nil || !slices.EqualFunc(got, slots, func(a, b rawSlot) bool { return a.root == b.root && bytes.Equal(a.meta, b.meta) }) {
				return viol("slot-count", "reading the slots (collected: %v), %s at operation %d: %d are found (%v) and there are %d, or they differ", collect, kind, n, len(got), err, len(slots))
			}
		}
	}
	return nil
}

func slots2roots(n int, f func(int) pointer.MemoryPointer) (out []pointer.MemoryPointer) {
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return
}

// collected compares what Collect returns from the head of a list with the
// roots of its slots.
func collected(head *linkedpage.LinkedPage, roots []pointer.MemoryPointer) *Violation {
	var got []pointer.MemoryPointer
	err := try(func() error {
		ps, err := head.Collect()
		if err != nil {
			return err
		}
		for _, x := range ps {
			root, err := x.Root()
			if err != nil {
				return err
			}
			got = append(got, root)
		}
		return nil
	})
	if err != nil {
		return viol("list-error", "Collect with %d slots: %v", len(roots), err)
	}
	if !slices.Equal(got, roots) {
		return viol("slot-count", "Collect returns %d slots, %d were created, or their roots differ", len(got), len(roots))
	}
	return nil
}

func (p propC09) named(sc *Scenario, st *Stats, d *Disk) *Violation {
	var f *appendable.IndexFile
	open := func() error {
		s := NewSess(d, st)
		s.short = uint64(sc.Cfg["short"])
		return try(func() (err error) {
			f, err = appendable.NewIndexFile(s.Handle(), handlerFor(false), nil)
			return err
		})
	}
	if err := open(); err != nil {
		return viol("open-error", "%v", err)
	}
	type slot struct {
		meta appendable.IndexMeta
		root pointer.MemoryPointer
	}
	var slots []*slot
	file := appendable.FileMeta{Version: appendable.CurrentVersion, Format: appendable.FormatJSONL}
	verify := func() *Violation {
		var v *Violation
		err := try(func() error {
			fm, err := f.Metadata()
			if err != nil {
				return err
			}
			if *fm != file {
				v = viol("wrong-slot", "the record of the file is %+v, expected %+v", *fm, file)
				return nil
			}
			empty, err := f.IsEmpty()
			if err != nil {
				return err
			}
			if empty != (len(slots) == 0) {
				v = viol("wrong-names", "with %d indexes the file is said to be empty: %v", len(slots), empty)
				return nil
			}
			mp, err := f.Indexes()
			n := 0
			for ; err == nil; mp, err = mp.Next() {
				if n >= len(slots) {
					v = viol("slot-count", "more than the %d indexes created are listed", len(slots))
					return nil
				}
				m := appendable.IndexMeta{}
				if err := mp.UnmarshalMetadata(&m); err != nil {
					v = viol("read-error", "index %d: %v", n, err)
					return nil
				}
				root, err := mp.Root()
				if err != nil {
					return err
				}
				if m != slots[n].meta || root != slots[n].root {
					v = viol("wrong-slot", "index %d of %d is %+v with root %v, expected %+v with root %v", n, len(slots), m, root, slots[n].meta, slots[n].root)
					return nil
				}
				n++
			}
			if err != io.EOF {
				return err
			}
			if n != len(slots) {
				v = viol("slot-count", "%d of %d indexes are listed", n, len(slots))
			}
			names, err := f.IndexFieldNames()
			if err != nil {
				return err
			}
			var want []string
			seen := map[string]bool{}
			for _, s := range slots {
				if !seen[s.meta.FieldName] {
					seen[s.meta.FieldName] = true
					want = append(want, s.meta.FieldName)
				}
			}
			if v == nil && strings.Join(names, "\x00") != strings.Join(want, "\x00") {
				v = viol("wrong-names", "the field names are %q, expected %q", names, want)
			}
			return nil
		})
		if err != nil {
			return viol("read-error", "%v", err)
		}
		return v
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		var v *Violation
		switch o.K {
		case "name":
			var s *slot
			for _, x := range slots {
				if x.meta.FieldName == o.S && int(x.meta.FieldType) == int(o.N) {
					s = x
				}
			}
			before := append([]byte(nil), d.buf...)
			var mp *linkedpage.LinkedPage
			var m *appendable.IndexMeta
			err := try(func() (err error) {
				mp, m, err = f.FindOrCreateIndex(o.S, appendable.FieldType(o.N))
				return err
			})
			if isPanic(err) {
				v = viol("panic", "%v", err)
				break
			}
			if err != nil {
				if s != nil || len(o.S) <= 200 {
					v = viol("create-error", "name of %d bytes: %v", len(o.S), err)
				} else if !bytes.Equal(before, d.buf) {
					v = viol("refused-name-writes", "a refused name changed the file")
				}
				st.Probe("name-refused")
				break
			}
			if s == nil {
				s = &slot{meta: appendable.IndexMeta{FieldName: o.S, FieldType: appendable.FieldType(o.N), Width: uint16(widthOf(int(o.N)))}}
				if o.N == 1 || o.N == 2 {
					s.meta.Width = 9
				}
				slots = append(slots, s)
			}
			if *m != s.meta {
				v = viol("wrong-slot", "FindOrCreateIndex(%q, %d) gave %+v, expected %+v", o.S, o.N, *m, s.meta)
				break
			}
			if o.M > 1 {
				mpr := pointer.MemoryPointer{Offset: uint64(o.L) << 8, Length: uint32(o.L)}
				if err := mp.SetRoot(mpr); err != nil {
					v = viol("write-error", "%v", err)
				}
				s.root = mpr
			}
		case "total":
			if len(slots) == 0 {
				break
			}
			s := slots[int(o.N)%len(slots)]
			err := try(func() error {
				mp, m, err := f.FindOrCreateIndex(s.meta.FieldName, s.meta.FieldType)
				if err != nil {
					return err
				}
				total := uint64(o.M)
				switch o.S {
				case "near":
					total = m.TotalFieldValueLength ^ 1<<(o.M%63)
				case "same":
					total = m.TotalFieldValueLength
				}
				m.TotalFieldValueLength = total
				s.meta.TotalFieldValueLength = total
				return mp.MarshalMetadata(m)
			})
			if err != nil {
				v = viol("write-error", "%v", err)
			}
		case "file":
			switch o.S {
			case "offset":
				file.ReadOffset ^= 1 << (o.N % 63)
			case "count":
				file.Entries ^= 1 << (o.N % 63)
			case "same":
			default:
				file.ReadOffset, file.Entries = uint64(o.N), uint64(o.M)
			}
			m := file
			if err := try(func() error { return f.SetMetadata(&m) }); err != nil {
				v = viol("write-error", "%v", err)
			}
		case "reopen":
			if err := open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		}
		if v == nil {
			v = verify()
		}
		if v != nil {
			return at(i, v)
		}
	}
	if len(slots) > 14 {
		st.Probe("second-page")
	}
	st.curTriv = len(slots) > 1
	return nil
}

// ---------------------------------------------------------------- C14

type propC14 struct{}

func (p propC14) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["style"] = int64(r.N(2))
	setGap(sc, r)
	sc.Cfg["dim"] = int64(pick(r, []int{1, 2, 3, 3, 8, 30, 128, 300}))
	n := pick(r, []int{5, 60, 300, 1500})
	if r.P(0.01) {
		sc.Cfg["dim"] = int64(r.In(345, 1000))
		n = r.In(1, 6)
	}
	if sc.Cfg["dim"] > 100 {
		n = min(n, 300)
	}
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	order := r.N(3)
	span := n * r.In(1, 4)
	for i := 0; i < n; i++ {
		id := int64(r.N(span))
		switch order {
		case 1:
			id = int64(i)
		case 2:
			id = int64(n - i)
		}
		if r.P(0.02) {
			id = int64(r.U64() >> uint(1+r.N(30)))
		}
		sc.Ops = append(sc.Ops, Op{K: "ins", N: id, M: int64(r.U64() >> uint(1+r.N(50))), L: int64(r.N(1 << 30))})
		if r.P(0.1) {
			sc.Ops = append(sc.Ops, Op{K: "find", N: int64(r.N(span))})
		}
		if r.P(0.02) {
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		}
		if r.P(0.02) {
			sc.Ops = append(sc.Ops, Op{K: "ffind", N: int64(r.N(1000)), F: &Fault{Kind: pick(r, []string{"err", "errp"}), At: int64(r.N(pick(r, []int{6, 20})))}})
		}
	}
	if r.P(0.4) {
		for k := r.In(1, 10); k > 0; k-- {
			sc.Ops = append(sc.Ops, Op{K: "fins", N: int64(r.N(span * 2)), M: int64(r.N(1000)), L: int64(r.N(1 << 30)), F: &Fault{Kind: pick(r, []string{"err", "errp", "werr", "full"}), At: int64(r.N(pick(r, []int{14, 60})))}})
		}
	} else {
		sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "all"})
	}
	return sc
}

func vectorOf(seed int64, dim int) hnsw.Point {
	r := NewRng(uint64(seed))
	v := make(hnsw.Point, dim)
	mode := r.N(4)
	for i := range v {
		switch mode {
		case 0:
			v[i] = float32(r.N(7) - 3)
		case 1:
			v[i] = math.Float32frombits(uint32(r.U64()))
		case 2:
			v[i] = float32(r.F()*2 - 1)
		case 3:
			v[i] = pick(r, []float32{0, float32(math.Copysign(0, -1)), 1e-40, math.MaxFloat32, float32(math.Inf(1)), 16777217, 0.1})
		}
	}
	return v
}

func sameVector(a, b hnsw.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := math.Float32bits(a[i]), math.Float32bits(b[i])
		if x != y && !(a[i] != a[i] && b[i] != b[i]) { // a NaN may change its payload in a register
			return false
		}
	}
	return true
}

type vecRec struct {
	dp pointer.MemoryPointer
	v  hnsw.Point
}

// openVectors opens the vector store on a disk.
func openVectors(sess *Sess, dim int) (t *btree.BTree, err error) {
	err = try(func() error {
		pf, err := pagefile.NewPageFile(sess.Handle())
		if err != nil {
			return err
		}
		lp, err := linkedpage.NewMultiBPTree(pf, 0)
		if err != nil {
			return err
		}
		n, err := lp.Next()
		if err == io.EOF {
			n, err = lp.AddNext()
		}
		if err != nil {
			return err
		}
		t = n.BTree(&btree.BTree{VectorDim: uint64(dim)})
		return nil
	})
	return t, err
}

// sweepVector repeats an insertion on copies of a disk with an error at each of
// its operations in turn: the insertion reports it or is complete, and lookups
// never yield a wrong vector afterwards, right away or after reopening.
func sweepVector(sc *Scenario, st *Stats, before *Disk, dim int, id hnsw.Id, r vecRec, ops int64, ids []hnsw.Id, stored map[hnsw.Id]vecRec) *Violation {
	st.Probe("insertion-swept")
	rng := NewRng(uint64(sc.Seed) ^ uint64(id))
	for at := int64(0); at < ops; at++ {
		d := before.Clone()
		sess := NewSess(d, st)
		t, err := openVectors(sess, dim)
		if err != nil {
			return viol("open-error", "%v", err)
		}
		kind := pick(rng, []string{"err", "err", "errp"})
		sess.Begin(&Fault{Kind: kind, At: at})
		err = try(func() error {
			return t.Insert(pointer.ReferencedId{Value: id, DataPointer: r.dp}, append(hnsw.Point(nil), r.v...))
		})
		fired := sess.fired
		sess.End()
		what := fmt.Sprintf("after %s at operation %d of %d of inserting %d with %d vectors stored", kind, at, ops, id, len(ids))
		if isPanic(err) {
			return viol("panic", "%s: %v", what, err)
		}
		if err != nil && !fired {
			return viol("insert-error", "%s: %v", what, err)
		}
		var oerr error
		for _, again := range []bool{false, true} {
			sess.Begin(nil)
			if again {
				if t, oerr = openVectors(NewSess(d, st), dim); oerr != nil {
					return viol("open-error", "%s: %v", what, oerr)
				}
			}
			ask := []hnsw.Id{id, id + 1, ids[0], ids[len(ids)-1], ids[len(ids)/2]}
			for k := 0; k < 6; k++ {
				ask = append(ask, ids[rng.N(len(ids))])
			}
			for _, x := range ask {
				var k pointer.ReferencedId
				var v hnsw.Point
				ferr := try(func() (err error) { k, v, err = t.Find(pointer.ReferencedId{Value: x}); return err })
				if isPanic(ferr) && err == nil {
					return viol("panic", "%s: Find(%d): %v", what, x, ferr)
				}
				want, ok := stored[x]
				if err == nil && ok && ferr != nil {
					return viol("not-found", "%s, which reported success: Find(%d): %v", what, x, ferr)
				}
				if ferr == nil && len(v) > 0 && (!ok || k.Value != x || k.DataPointer != want.dp || !sameVector(v, want.v)) {
					return viol("wrong-vector", "%s: Find(%d) gave id %d, data %v, vector of %d", what, x, k.Value, k.DataPointer, len(v))
				}
			}
		}
	}
	return nil
}

func (p propC14) Run(sc *Scenario, st *Stats) *Violation {
	d := &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}
	dim := int(max(sc.Cfg["dim"], 1))
	var t *btree.BTree
	var sess *Sess
	open := func() (err error) {
		sess = NewSess(d, st)
		sess.short = uint64(sc.Cfg["short"])
		t, err = openVectors(sess, dim)
		return err
	}
	if err := open(); err != nil {
		return viol("open-error", "%v", err)
	}
	type rec = vecRec
	stored := map[hnsw.Id]rec{}
	// attempted holds what failed insertions may have left behind
	attempted := map[hnsw.Id][]rec{}
	var ids []hnsw.Id
	damaged := false
	sweeps := 0
	find := func(id hnsw.Id, f *Fault) *Violation {
		sess.Begin(f)
		defer sess.End()
		var k pointer.ReferencedId
		var v hnsw.Point
		err := try(func() (err error) { k, v, err = t.Find(pointer.ReferencedId{Value: id}); return err })
		if isPanic(err) {
			return viol("panic", "Find(%d): %v", id, err)
		}
		r, ok := stored[id]
		if err != nil && sess.fired {
			return nil
		}
		if damaged {
			// vectors may be out of reach after a failed insertion, but never wrong
			if err != nil || len(v) == 0 {
				return nil
			}
			for _, a := range attempted[id] {
				if k.Value == id && k.DataPointer == a.dp && sameVector(v, a.v) {
					return nil
				}
			}
		}
		if !ok {
			if err == nil && (len(ids) > 0 || len(v) != 0) {
				return viol("phantom", "Find(%d) found %v, which was never inserted", id, k)
			}
			return nil
		}
		if err != nil {
			return viol("not-found", "Find(%d) with %d vectors stored: %v", id, len(ids), err)
		}
		if k.Value != id || k.DataPointer != r.dp || !sameVector(v, r.v) {
			return viol("wrong-vector", "Find(%d) gave id %d, data %v, vector of %d, expected data %v", id, k.Value, k.DataPointer, len(v), r.dp)
		}
		return nil
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		var v *Violation
		switch o.K {
		case "ins", "fins":
			id := hnsw.Id(o.N)
			r := rec{pointer.MemoryPointer{Offset: uint64(o.M), Length: uint32(o.L)}, vectorOf(o.L, dim)}
			_, dup := stored[id]
			before := append([]byte(nil), d.buf...)
			sess.Begin(o.F)
			err := try(func() error {
				return t.Insert(pointer.ReferencedId{Value: id, DataPointer: r.dp}, append(hnsw.Point(nil), r.v...))
			})
			fired, opsUsed := sess.fired, sess.ops
			sess.End()
			switch {
			case isPanic(err):
				v = viol("panic", "Insert with %d vectors of dimension %d stored: %v", len(ids), dim, err)
				if dim > 338 && strings.Contains(err.Error(), "writing empty node") {
					v.Sig = "vector-over-a-third-of-a-page"
				}
			case dup && err == nil && damaged:
				attempted[id] = append(attempted[id], r)
			case dup && err == nil:
				v = viol("duplicate", "inserting id %d twice succeeded", id)
			case dup:
				if !damaged && !bytes.Equal(before, d.buf) {
					v = viol("refused-insert-writes", "refusing a duplicate id changed the file")
				}
			case err != nil && !fired:
				v = viol("insert-error", "Insert: %v", err)
			case err != nil:
				// what was stored may be unreachable now, but must not be wrong
				damaged = true
				attempted[id] = append(attempted[id], r)
			default:
				stored[id] = r
				ids = append(ids, id)
				if !damaged || o.F == nil {
					v = find(id, nil)
				}
			}
			if v == nil && dup {
				v = find(id, nil)
			}
			if v == nil && err == nil && o.F == nil && !damaged && sweeps < 6 && (len(d.buf) >= len(before)+2*4096 || o.M%61 == 0 && len(ids) > 20) {
				sweeps++
				v = sweepVector(sc, st, &Disk{buf: before, style: d.style, gap: d.gap}, dim, id, r, opsUsed, ids, stored)
			}
		case "find":
			v = find(hnsw.Id(o.N), nil)
		case "ffind":
			if len(ids) > 0 {
				v = find(ids[int(o.N)%len(ids)], o.F)
			}
		case "all":
			for _, id := range ids {
				if v = find(id, nil); v != nil {
					break
				}
			}
		case "reopen":
			if err := open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		}
		if v != nil {
			return at(i, v)
		}
	}
	if damaged {
		for i := range sc.Ops {
			if k := sc.Ops[i].K; k == "ins" || k == "fins" {
				if v := find(hnsw.Id(sc.Ops[i].N), nil); v != nil {
					return v
				}
			}
		}
	}
	st.curTriv = len(ids) > 1
	if len(d.buf) > 4096*5 {
		st.Probe("several-leaves")
	}
	return nil
}

// ---------------------------------------------------------------- C15

type propC15 struct{}

func (p propC15) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["dim"] = int64(pick(r, []int{1, 2, 2, 3, 8, 30}))
	n := pick(r, []int{3, 10, 40, 120})
	sc.Cfg["m"] = int64(r.In(2, 8))
	sc.Cfg["ef"] = int64(r.In(1, 20))
	if r.P(0.5) {
		// exhaustive
		n = min(n, 60)
		sc.Cfg["m"] = int64(n + r.In(1, 5))
		sc.Cfg["ef"] = int64(n + r.In(1, 5))
	} else if r.P(0.4) {
		sc.Cfg["ef"] = int64(n + r.In(1, 5))
	}
	grid := r.N(3)
	for i := 0; i < n; i++ {
		sc.Ops = append(sc.Ops, Op{K: "ins", N: int64(r.N(1 << 30)), M: int64(grid)})
		if r.P(0.1) {
			sc.Ops = append(sc.Ops, Op{K: "bad", N: int64(r.N(40))})
		}
		if r.P(0.2) {
			sc.Ops = append(sc.Ops, Op{K: "knn", N: int64(r.N(1 << 30)), M: int64(grid), L: int64(r.In(1, n+2))})
		}
	}
	for i := 0; i < 5; i++ {
		sc.Ops = append(sc.Ops, Op{K: "knn", N: int64(r.N(1 << 30)), M: int64(grid), L: int64(r.In(1, n+2))})
	}
	sc.Ops = append(sc.Ops, Op{K: "knn", N: int64(r.N(1 << 30)), M: int64(grid), L: int64(n + 2)})
	return sc
}

// friendsOf returns the vectors a vector is linked to on the lowest level.
func friendsOf(h *hnsw.Hnsw, id hnsw.Id) ([]distItem, error) {
	fr, err := h.Neighborhood(id)
	if err != nil {
		return nil, err
	}
	g, err := fr.GetFriendsAtLevel(0)
	if err != nil {
		return nil, err
	}
	return heapItems(g.Clone())
}

func graphPoint(seed, grid int64, dim int) hnsw.Point {
	r := NewRng(uint64(seed))
	v := make(hnsw.Point, dim)
	for i := range v {
		switch grid {
		case 0:
			v[i] = float32(r.N(4))
		case 1:
			v[i] = float32(r.F()*200 - 100)
		default:
			v[i] = float32(r.N(2))*1000 + float32(r.F())
		}
	}
	return v
}

type distItem struct {
	id   uint
	dist float32
}

// heapItems empties a heap, whose items only expose themselves to reflection.
func heapItems(h *hnsw.DistHeap) ([]distItem, error) {
	var out []distItem
	for !h.IsEmpty() {
		it, err := h.PopMinItem()
		if err != nil {
			return nil, err
		}
		v := reflect.ValueOf(it).Elem()
		d := distItem{}
		for i := 0; i < v.NumField(); i++ {
			switch f := v.Field(i); f.Kind() {
			case reflect.Uint:
				d.id = uint(f.Uint())
			case reflect.Float32:
				d.dist = float32(f.Float())
			}
		}
		out = append(out, d)
	}
	return out, nil
}

func refDist(a, b hnsw.Point) float64 {
	s := 0.0
	for i := range a {
		d := float64(a[i]) - float64(b[i])
		s += d * d
	}
	return math.Sqrt(s)
}

func nearly(a, b float64) bool { return math.Abs(a-b) <= 1e-3*(1+math.Max(a, b)) }

func (p propC15) Run(sc *Scenario, st *Stats) *Violation {
	dim := int(max(sc.Cfg["dim"], 1))
	m, ef := int(max(sc.Cfg["m"], 2)), int(max(sc.Cfg["ef"], 1))
	pts := []hnsw.Point{graphPoint(int64(sc.Seed), 0, dim)}
	var h *hnsw.Hnsw
	if err := try(func() error {
		h = hnsw.NewHnsw(dim, ef, m, append(hnsw.Point(nil), pts[0]...))
		return nil
	}); err != nil {
		return viol("panic", "%v", err)
	}
	maxLevel := 0
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		var v *Violation
		switch o.K {
		case "ins":
			q := graphPoint(o.N, o.M, dim)
			var id hnsw.Id
			err := try(func() (err error) { id, err = h.InsertVector(append(hnsw.Point(nil), q...)); return err })
			if err != nil {
				v = viol("insert-error", "InsertVector with %d vectors: %v", len(pts), err)
				break
			}
			if int(id) != len(pts) {
				v = viol("wrong-id", "vector %d got id %d", len(pts), id)
				break
			}
			pts = append(pts, q)
			fr, err := h.Neighborhood(id)
			if err != nil {
				v = viol("no-neighborhood", "vector %d: %v", id, err)
				break
			}
			maxLevel = max(maxLevel, fr.TopLevel())
			st.hash.Add(uint64(fr.TopLevel()))
		case "bad":
			if int(o.N) == dim {
				break
			}
			err := try(func() error { _, err := h.InsertVector(make(hnsw.Point, o.N)); return err })
			if err == nil || isPanic(err) {
				v = viol("bad-dimension", "inserting a vector of dimension %d into a graph of dimension %d: %v", o.N, dim, err)
			} else if _, err := h.Neighborhood(hnsw.Id(len(pts))); err == nil {
				v = viol("bad-dimension", "a refused vector was stored")
			}
		case "knn":
			q := graphPoint(o.N, o.M, dim)
			k := int(max(o.L, 1))
			var items []distItem
			err := try(func() error {
				res, err := h.KnnSearch(append(hnsw.Point(nil), q...), k)
				if err != nil {
					return err
				}
				items, err = heapItems(res)
				return err
			})
			if err != nil {
				v = viol("search-error", "KnnSearch with %d vectors: %v", len(pts), err)
				break
			}
			if len(items) == 0 || len(items) > k {
				v = viol("result-count", "KnnSearch for %d neighbours returned %d", k, len(items))
				break
			}
			seen := map[uint]bool{}
			prev := -1.0
			for _, it := range items {
				if int(it.id) >= len(pts) || seen[it.id] {
					v = viol("bad-result", "KnnSearch returned id %d twice or beyond the %d vectors stored", it.id, len(pts))
					break
				}
				seen[it.id] = true
				d := refDist(pts[it.id], q)
				if !nearly(d, float64(it.dist)) {
					v = viol("wrong-distance", "KnnSearch returned distance %v for vector %d, it is %v", it.dist, it.id, d)
					break
				}
				if float64(it.dist) < prev {
					v = viol("heap-order", "results come out of order")
					break
				}
				prev = float64(it.dist)
				st.hash.Add(uint64(it.id))
			}
			if v == nil && m >= len(pts) && ef >= len(pts) {
				var all []float64
				for _, x := range pts {
					all = append(all, refDist(x, q))
				}
				sort.Float64s(all)
				want := min(k, len(pts))
				if len(items) != want {
					v = viol("not-exact", "an exhaustive search for %d neighbours of %d vectors returned %d", k, len(pts), len(items))
					break
				}
				for j, it := range items {
					if !nearly(all[j], float64(it.dist)) {
						v = viol("not-exact", "neighbour %d of an exhaustive search has distance %v, the true one has %v", j, it.dist, all[j])
						break
					}
				}
				st.Probe("exhaustive-search")
			}
			if v == nil && ef >= len(pts) && k >= len(pts) {
				// nothing limits the search, so it went along every link
				for _, it := range items {
					friends, err := friendsOf(h, hnsw.Id(it.id))
					if err != nil {
						v = viol("no-neighborhood", "vector %d: %v", it.id, err)
					}
					for _, f := range friends {
						if !seen[f.id] && v == nil {
							v = viol("not-followed", "an unlimited search returned %d of %d vectors, vector %d among them but not %d, which that one is linked to", len(items), len(pts), it.id, f.id)
						}
					}
				}
				st.Probe("unlimited-search")
			}
		}
		if v == nil {
			v = checkGraph(h, pts)
		}
		if v != nil {
			return at(i, v)
		}
	}
	if maxLevel > 1 {
		st.Probe("several-levels")
	}
	st.curTriv = len(pts) > 2
	return nil
}

func checkGraph(h *hnsw.Hnsw, pts []hnsw.Point) (v *Violation) {
	err := try(func() error {
		// only the newest vectors and the ones they touched can have changed
		for id := max(0, len(pts)-3); id < len(pts); id++ {
			fr, err := h.Neighborhood(hnsw.Id(id))
			if err != nil {
				v = viol("no-neighborhood", "vector %d of %d: %v", id, len(pts), err)
				return nil
			}
			for l := 0; l <= fr.TopLevel(); l++ {
				g, err := fr.GetFriendsAtLevel(l)
				if err != nil {
					return err
				}
				items, err := heapItems(g.Clone())
				if err != nil {
					return err
				}
				for _, it := range items {
					if int(it.id) == id {
						v = viol("bad-link", "vector %d links to itself", id)
						return nil
					}
					if int(it.id) >= len(pts) {
						v = viol("bad-link", "vector %d links to %d, but there are %d vectors", id, it.id, len(pts))
						return nil
					}
					if d := refDist(pts[it.id], pts[id]); !nearly(d, float64(it.dist)) {
						v = viol("bad-link", "the link from %d to %d has length %v, their distance is %v", id, it.id, it.dist, d)
						return nil
					}
				}
			}
		}
		return nil
	})
	if err != nil {
		return viol("panic", "%v", err)
	}
	return v
}
