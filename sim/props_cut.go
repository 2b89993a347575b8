package main

import (
	"bytes"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/pointer"
)

// ---------------------------------------------------------------- C25

// The indexer is given a data file that does not reach as far as its index: the
// file was truncated, or a copy of it is not complete.
type propC25 struct{}

func (p propC25) Gen(r *Rng, big bool) *Scenario {
	return genDocs(r, big, "C25", docOpts{csv: -1, syncP: 0.4, reopenP: 0.1, checkP: 0.1, probeP: 0, flushAll: 0.5, maxRecs: 250, extraP: 0.3, extra: func(r *Rng, g *docGen) []Op {
		return []Op{{K: "cut", S: pick(r, []string{"sync", "sync", "read", "find"}), N: int64(r.N(1 << 30)), M: int64(r.N(8)), L: int64(r.N(3))}}
	}})
}

// cutAt is a length of the data file shorter than what is indexed.
func (w *World) cutAt(o *Op) int {
	r := NewRng(uint64(o.N))
	end := int(w.model(w.syncedN).Read - w.base)
	if end <= 0 {
		return -1
	}
	switch o.L {
	case 0:
		return r.N(end)
	case 1:
		// close to the end
		return max(0, end-1-r.N(12))
	}
	// at the end of a record or nearly so
	p := w.recs[r.N(w.syncedN)]
	return max(0, min(end-1, p.off+p.len+r.N(3)-1))
}

func (w *World) shortSync(o *Op, df []byte) *Violation {
	x := w.f
	d := w.disk
	if o.M&1 != 0 {
		// by a new process
		d = w.disk.Clone()
		if err := try(func() (err error) {
			x, err = appendable.NewIndexFile(NewSess(d, w.st).Handle(), handlerFor(w.csv), w.search)
			return err
		}); err != nil {
			return viol("open-error", "%v", err)
		}
	}
	before := append([]byte(nil), d.buf...)
	err := try(func() error { return x.Synchronize(df) })
	what := viol("", "synchronizing an index of %d bytes of data with a file of %d", w.model(w.syncedN).Read, len(df)).Msg
	switch {
	case err == nil:
		return viol("accepted", "%s succeeded", what)
	case isPanic(err):
		return viol("panic", "%s: %v", what, err)
	case !bytes.Equal(before, d.buf):
		return viol("modified", "%s failed (%v) but changed the index, first at %d", what, err, firstDiff(before, d.buf))
	}
	return nil
}

// shortRead looks entries up with a data file that is too short for some of them.
func (w *World) shortRead(o *Op, df []byte) *Violation {
	l, err := w.readCurrent()
	if err != nil {
		return viol("read-error", "reading the index: %v", err)
	}
	r := NewRng(uint64(o.N) * 31)
	for _, k := range l.Order {
		keys := l.Keys[k]
		t := treeOf(l.pages[k], k, df, w.csv)
		if o.S == "read" {
			var v *Violation
			n := 0
			err := try(func() error {
				it, err := t.Iter(pointer.ReferencedValue{})
				if err != nil {
					return err
				}
				for it.Next() {
					if n >= len(keys) || cmpKeys(it.Key(), keys[n]) != 0 {
						v = viol("wrong-entry", "iterating index %v with a data file of %d bytes: entry %d is %v", k, len(df), n, it.Key())
						return nil
					}
					n++
				}
				return it.Err()
			})
			switch {
			case v != nil:
				return v
			case isPanic(err):
				return viol("panic", "iterating index %v with a data file of %d bytes: %v", k, len(df), err)
			case err == nil && n != len(keys):
				return viol("missing-entry", "iterating index %v with a data file of %d bytes ended after %d of %d entries without an error", k, len(df), n, len(keys))
			case err != nil && (!w.csv && widthOf(k.Type) != 0 || w.reaches(keys, len(df))):
				return viol("read-error", "iterating index %v, whose keys are not in the missing data: %v", k, err)
			case err != nil:
				w.st.Probe("missing-key-reported")
			}
			continue
		}
		for i := 0; i < 4 && len(keys) > 0; i++ {
			key := keys[r.N(len(keys))]
			if r.P(0.3) {
				key.DataPointer = pointer.MemoryPointer{}
			}
			var v *Violation
			err := try(func() error {
				v = probeTree(t, keys, key, r.In(0, 3), k.Field)
				return nil
			})
			switch {
			case isPanic(err):
				return viol("panic", "a lookup in index %v with a data file of %d bytes: %v", k, len(df), err)
			case v != nil && v.Class != "lookup-error":
				return v
			case v != nil && (!w.csv && widthOf(k.Type) != 0 || w.reaches(keys, len(df))):
				return v
			case v != nil:
				w.st.Probe("missing-key-reported")
			}
		}
	}
	return nil
}

// reaches reports whether no key is in the missing part of the data.
func (w *World) reaches(keys []pointer.ReferencedValue, n int) bool {
	for _, k := range keys {
		if k.DataPointer.Offset+uint64(k.DataPointer.Length) > uint64(n) {
			return false
		}
	}
	return true
}

func (p propC25) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		switch o.K {
		case "cut":
			if w.f == nil || w.syncedN == 0 {
				break
			}
			n := w.cutAt(o)
			if n < 0 {
				break
			}
			df := w.df()[: w.base+uint64(n) : w.base+uint64(n)]
			st.Fault("truncated-data-file")
			st.Ops++
			if o.S == "sync" {
				v = w.shortSync(o, df)
			} else {
				v = w.shortRead(o, df)
			}
			if v == nil && o.M&2 != 0 {
				v = w.check(w.syncedN, o.M&4 != 0)
			}
		default:
			_, v = w.step(i, o)
		}
		if v != nil {
			v.Step = i
			return v
		}
	}
	w.probes()
	return nil
}
