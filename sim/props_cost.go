package main

import (
	"fmt"
	"math/bits"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"

	"github.com/kevmo314/appendable/pkg/appendable"

	"github.com/kevmo314/appendable/pkg/pointer"
)

// ---------------------------------------------------------------- C23

// propC23 is about the work an update or a lookup takes, in storage operations.
// The bounds are several times what the code needs; what they exclude is work
// that grows with what is already there.
type propC23 struct{}

func init() {
	props["C23"] = propInfo{propC23{}, 4000, "A history of records, synchronizations, reopenings and lookups, counting storage operations; non-trivial: at least two records were synchronized.", realGo, stubDisk}
}

const (
	costFixed  = 120 // opening an index, or an update without new records
	costInsert = 20  // per value and index
	costStep   = 20  // per step of a lookup and level of the tree
)

func (p propC23) Gen(r *Rng, big bool) *Scenario {
	if r.P(0.12) {
		return genSealed(r)
	}
	sc := genDocs(r, big, "C23", docOpts{csv: -1, syncP: 0.3, reopenP: 0.2, probeP: 0.2, flushAll: 0.5})
	delete(sc.Cfg, "short") // short reads multiply the operations
	if r.P(0.3) {
		// one more record long after the others, and nothing new many times
		for k := r.In(1, 4); k > 0; k-- {
			sc.Ops = append(sc.Ops, Op{K: "reopen"}, Op{K: "sync"})
		}
	}
	return sc
}

// values is the number of values of the first n records.
func (w *World) values(n int) (values int) {
	for _, q := range w.recs[:n] {
		q.rec.Render(w.headers, w.smap, func(Entry) { values++ }, func(indexKey, uint64) { values++ })
	}
	return values
}

func (p propC23) Run(sc *Scenario, st *Stats) *Violation {
	if sc.Cfg["sealed"] != 0 {
		return runSealed(sc, st)
	}
	w := NewWorld(sc, st)
	worst := 0.0
	for i := range sc.Ops {
		o := &sc.Ops[i]
		if o.K == "check" {
			continue
		}
		pages, was := len(w.disk.buf)/4096, w.syncedN
		if o.K == "probe" {
			if w.f != nil {
				if v := w.lookupCost(uint64(o.N), int(o.M)); v != nil {
					return at(i, v)
				}
			}
			continue
		}
		fresh := w.f == nil
		if _, v := w.step(i, o); v != nil {
			return at(i, v)
		}
		ops := int(w.sess.ops)
		grown := len(w.disk.buf)/4096 - pages
		switch o.K {
		case "reopen":
			if ops > costFixed {
				return at(i, viol("open-cost", "opening an index of %d pages took %d storage operations", pages, ops))
			}
			if pages > 2 && grown != 0 {
				return at(i, viol("open-grows", "opening an index of %d pages added %d", pages, grown))
			}
		case "sync":
			n := w.complete()
			if n == was && !fresh {
				st.Probe("update-without-news")
				if ops > costFixed {
					return at(i, viol("idle-cost", "an update without new records of an index of %d pages took %d storage operations", pages, ops))
				}
				if grown != 0 {
					return at(i, viol("idle-grows", "an update without new records added %d pages", grown))
				}
				break
			}
			m := w.model(n)
			vals := w.values(n) - w.values(was)
			entries := 0
			for _, e := range m.Entries {
				entries += len(e)
			}
			limit := costFixed + costInsert*vals*(len(m.Total)+1+bits.Len(uint(entries)))
			if ops > limit {
				return at(i, viol("update-cost", "adding %d values of %d records to an index of %d fields and %d entries took %d storage operations (limit %d)", vals, n-was, len(m.Total), entries, ops, limit))
			}
			worst = max(worst, float64(ops)/float64(limit))
			// an entry takes at most 30 bytes, or 8 bytes more if its key is inline, and
			// pages of a tree are at least about half full
			if size, limit := len(w.disk.buf)/4096, 10+3*len(m.Total)+entries/20; size > limit {
				return at(i, viol("size", "an index of %d fields and %d entries takes %d pages (limit %d)", len(m.Total), entries, size, limit))
			}
		}
	}
	if worst > 0.15 {
		st.Probe("update-near-limit")
	}
	w.probes()
	return nil
}

// lookupCost bounds the work of lookups in trees picked by the seed.
func (w *World) lookupCost(seed uint64, n int) *Violation {
	l, err := w.readCurrent()
	if err != nil {
		return viol("read-error", "reading the index: %v", err)
	}
	r := NewRng(seed)
	for ; n > 0 && len(l.Order) > 0; n-- {
		k := l.Order[r.N(len(l.Order))]
		keys := l.Keys[k]
		var key pointer.ReferencedValue
		if len(keys) > 0 {
			key.Value = keys[r.N(len(keys))].Value
		}
		t := treeOf(l.pages[k], k, w.df(), w.csv)
		steps := r.N(4)
		w.sess.Begin(nil)
		err := try(func() error {
			if _, _, err := t.Find(key); err != nil {
				return err
			}
			it, err := t.Iter(key)
			if err != nil {
				return err
			}
			for i := 0; i < steps && it.Next(); i++ {
			}
			return it.Err()
		})
		if err != nil {
			return viol("lookup-error", "%v", err)
		}
		limit := costFixed + costStep*(steps+2)*(1+bits.Len(uint(len(keys))))
		if ops := int(w.sess.ops); ops > limit {
			return viol("lookup-cost", "looking a key up and %d steps from there in a tree of %d entries took %d storage operations (limit %d)", steps, len(keys), ops, limit)
		}
	}
	return nil
}

// ---------------------------------------------------------------- sealed data

// The data file is memory to the indexer. In these runs the pages that hold
// only indexed records cannot be read, so that an update that looks at them
// again is seen. Values are such that their keys are in the index (which those
// of CSV files never are: their trees refer to the data file for every key).

const sealedSize = 8 << 20

var sealedOnce sync.Once
var sealedMap []byte

func sealedMem() []byte {
	sealedOnce.Do(func() {
		b, err := syscall.Mmap(-1, 0, sealedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		sealedMap = b
	})
	return sealedMap
}

func genSealed(r *Rng) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{"sealed": 1, "style": int64(r.N(2)), "fields": int64(r.In(1, 6))}}
	for k := r.In(2, 8); k > 0; k-- {
		sc.Ops = append(sc.Ops, Op{K: "batch", N: int64(r.N(1 << 30)), M: int64(pick(r, []int{0, 1, 3, 20, 100, 400}))})
		if r.P(0.4) {
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		}
		sc.Ops = append(sc.Ops, Op{K: "sync"})
	}
	return sc
}

func runSealed(sc *Scenario, st *Stats) (v *Violation) {
	fields := int(max(sc.Cfg["fields"], 1))
	sess := NewSess(&Disk{style: int(sc.Cfg["style"])}, st)
	mem := sealedMem()
	vis, indexed, records := 0, 0, 0
	write := func(s string) bool {
		if vis+len(s) > len(mem) {
			return false
		}
		copy(mem[vis:], s)
		vis += len(s)
		return true
	}
	var f *appendable.IndexFile
	open := func() error {
		return try(func() (err error) {
			f, err = appendable.NewIndexFile(sess.Handle(), handlerFor(false), nil)
			return err
		})
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		switch o.K {
		case "batch":
			r := NewRng(uint64(o.N))
			for n := o.M; n > 0; n-- {
				var cells []string
				for i := 0; i < fields; i++ {
					c := pick(r, []string{"true", "false", "7", "-12.5", "1e9"})
					if r.P(0.7) {
						c = fmt.Sprint(r.In(-1000000, 1000000))
					}
					cells = append(cells, fmt.Sprintf("\"f%d\":%s", i, c))
				}
				if write("{" + strings.Join(cells, ",") + "}\n") {
					records++
				}
			}
		case "reopen":
			if err := open(); err != nil {
				return at(i, viol("open-error", "reopening: %v", err))
			}
		case "sync":
			if f == nil {
				if err := open(); err != nil {
					return at(i, viol("open-error", "opening: %v", err))
				}
			}
			// the last pages may be looked at to find the end of the last record
			lo, hi := 4096, (indexed-4096)&^4095
			if hi > lo {
				if err := syscall.Mprotect(mem[lo:hi], syscall.PROT_NONE); err != nil {
					panic("HARNESS: " + err.Error())
				}
				st.Probe("update-over-sealed-data")
			}
			err := try(func() error { return f.Synchronize(mem[:vis:vis]) })
			if hi > lo {
				if err := syscall.Mprotect(mem[lo:hi], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
					panic("HARNESS: " + err.Error())
				}
			}
			if err != nil {
				if isPanic(err) && hi > lo && strings.Contains(err.Error(), "memory address") {
					return at(i, viol("reads-old-data", "an update read data that is indexed already, of %d bytes the last %d are new: %v", vis, vis-indexed, err))
				}
				return at(i, viol("sync-error", "synchronize: %v", err))
			}
			indexed = vis
		}
	}
	st.curTriv = records > 1
	return nil
}
