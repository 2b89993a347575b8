package main

import (
	"bytes"
	"fmt"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
)

// ---------------------------------------------------------------- C13

func (p propC13) Gen(r *Rng, big bool) *Scenario {
	return genDocs(r, big, "C13", docOpts{csv: -1, syncP: 0.4, reopenP: 0.1, checkP: 0.05, probeP: 0, flushAll: 0.5, maxRecs: 60, extraP: 0.5, extra: func(r *Rng, g *docGen) []Op {
		switch r.N(5) {
		case 0:
			return []Op{{K: "other"}}
		case 1:
			return []Op{{K: "version", N: int64(r.N(256))}}
		case 2:
			// L is the length to cut the record to, M the format byte
			o := Op{K: "record", N: appendable.CurrentVersion, M: int64(r.In(2, 255)), L: 11}
			if r.P(0.4) {
				o.M, o.L = int64(r.N(256)), int64(r.N(10))
			} else if r.P(0.2) {
				o.N = int64(r.N(256))
			}
			return []Op{o}
		case 3:
			return []Op{{K: "short", N: int64(r.In(1, 4095)), M: int64(r.N(1 << 30))}}
		}
		return []Op{{K: "first", N: int64(r.N(2))}}
	}})
}

type propC13 struct{}

func (p propC13) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	// refuse opens d with a handler it must not accept
	refuse := func(d *Disk, csv bool, what string) *Violation {
		before := append([]byte(nil), d.buf...)
		s := NewSess(d, st)
		err := try(func() error {
			_, err := appendable.NewIndexFile(s.Handle(), handlerFor(csv), w.search)
			return err
		})
		if isPanic(err) {
			return viol("panic", "opening %s: %v", what, err)
		}
		if err == nil {
			return viol("accepted", "opening %s succeeded", what)
		}
		if !bytes.Equal(before, d.buf) {
			return viol("modified", "opening %s failed (%v) but changed the file (%d -> %d bytes, first difference at %d)", what, err, len(before), len(d.buf), firstDiff(before, d.buf))
		}
		return nil
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		switch o.K {
		case "other":
			if len(w.disk.buf) > 0 {
				st.Fault("wrong-format-handler")
				v = refuse(w.disk, !w.csv, "an index of another format")
				if v == nil {
					if err := w.open(nil); err != nil {
						v = viol("open-error", "opening with the right handler after a refused one: %v", err)
					} else {
						v = w.check(w.syncedN, true)
					}
				}
			}
		case "version":
			if len(w.disk.buf) > 0 && o.N != appendable.CurrentVersion {
				d := w.disk.Clone()
				s := NewSess(d, st)
				err := try(func() error {
					x, err := appendable.NewIndexFile(s.Handle(), handlerFor(w.csv), nil)
					if err != nil {
						return err
					}
					m, err := x.Metadata()
					if err != nil {
						return err
					}
					m.Version = appendable.Version(o.N)
					return x.SetMetadata(m)
				})
				if err != nil {
					v = viol("open-error", "%v", err)
					break
				}
				st.Fault("wrong-version")
				v = refuse(d, w.csv, "an index of another version")
				if v == nil {
					v = refuse(d, !w.csv, "an index of another version and format")
				}
			}
		case "record":
			// a record of the file with an unknown format, or cut short
			if len(w.disk.buf) > 0 && o.M >= 0 && o.M < 256 && o.L >= 0 && (o.L < 10 || o.M > 1) {
				d := w.disk.Clone()
				s := NewSess(d, st)
				err := try(func() error {
					pf, err := pagefile.NewPageFile(s.Handle())
					if err != nil {
						return err
					}
					first, err := linkedpage.NewMultiBPTree(pf, 0)
					if err != nil {
						return err
					}
					slot, err := first.Next()
					if err != nil {
						return err
					}
					b, err := slot.Metadata()
					if err != nil {
						return err
					}
					b = append([]byte(nil), b...)
					b[0], b[1] = byte(o.N), byte(o.M)
					return slot.SetMetadata(b[:min(int(o.L), len(b))])
				})
				if err != nil {
					v = viol("open-error", "%v", err)
					break
				}
				st.Fault("unknown-or-cut-record")
				v = refuse(d, w.csv, fmt.Sprintf("an index of format %d with a record of %d bytes", o.M, o.L))
				if v == nil {
					v = refuse(d, !w.csv, fmt.Sprintf("an index of format %d with a record of %d bytes", o.M, o.L))
				}
			}
		case "short":
			// a file too short to be an index: the beginning of this one or noise
			n := o.N
			if n < 1 || n > 4095 {
				break
			}
			d := &Disk{style: w.disk.style}
			if o.M%2 == 0 && int64(len(w.disk.buf)) > n {
				d.buf = append([]byte(nil), w.disk.buf[:n]...)
			} else {
				r := NewRng(uint64(o.M))
				for k := int64(0); k < n; k++ {
					d.buf = append(d.buf, byte(r.U64()))
				}
			}
			st.Fault("truncated-or-foreign-file")
			v = refuse(d, w.csv, "a file that is no index")
		case "first":
			// what a new index records about itself
			d := &Disk{style: w.disk.style}
			csv := o.N != 0
			s := NewSess(d, st)
			var m *appendable.FileMeta
			err := try(func() error {
				x, err := appendable.NewIndexFile(s.Handle(), handlerFor(csv), w.search)
				if err != nil {
					return err
				}
				m, err = x.Metadata()
				return err
			})
			if err != nil {
				v = viol("open-error", "creating an index: %v", err)
				break
			}
			want := appendable.FileMeta{Version: appendable.CurrentVersion, Format: appendable.FormatJSONL}
			if csv {
				want.Format = appendable.FormatCSV
			}
			if *m != want {
				v = viol("wrong-metadata", "a new index has metadata %+v", *m)
				break
			}
			v = refuse(d, !csv, "a new index of another format")
		default:
			_, v = w.step(i, o)
		}
		if v != nil {
			v.Step = i
			return v
		}
	}
	w.probes()
	return nil
}

// ---------------------------------------------------------------- C05

type propC05 struct{}

// sweepSteps bounds the storage operations spent on one sweep.
const sweepSteps = 1_500_000

func storageFault(r *Rng, crash bool) *Fault {
	kinds := []string{"err", "err", "errp", "partial", "werr", "full"}
	if crash {
		kinds = []string{"crash", "crash", "crash", "werr", "full", "err", "errp"}
	}
	f := &Fault{Kind: pick(r, kinds), At: int64(r.N(1 << 20))}
	if r.P(0.3) {
		f.At = int64(r.N(8))
	}
	return f
}

func (p propC05) Gen(r *Rng, big bool) *Scenario {
	if r.P(0.05) {
		sc := genFields(r, "C05")
		sc.Ops = append(sc.Ops, Op{K: "sweep", S: pick(r, []string{"err", "err", "werr", "partial"}), M: 1 << 20})
		return sc
	}
	sc := genDocs(r, big, "C05", docOpts{csv: -1, syncP: 0.3, reopenP: 0.1, checkP: 0, probeP: 0, flushAll: 0.5, maxRecs: 120, noBase: true, extraP: 0.3, extra: func(r *Rng, g *docGen) []Op {
		switch r.N(4) {
		case 0:
			return []Op{{K: "fopen", F: storageFault(r, false)}}
		case 1:
			return []Op{{K: "fread", F: storageFault(r, false), N: int64(r.N(1 << 30))}}
		}
		return []Op{{K: "ffork", F: storageFault(r, false), M: int64(r.N(2)), N: int64(r.N(300))}}
	}})
	sc.Ops = sc.Ops[:len(sc.Ops)-4]
	switch r.N(4) {
	case 0:
		sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sweep", S: pick(r, []string{"err", "werr", "full", "partial"}), N: int64(r.N(1 << 30)), M: int64(r.In(20, 80))})
	case 1:
		sc.Ops = append(sc.Ops, Op{K: "sweepread", N: int64(r.N(1 << 30)), M: int64(r.In(20, 60))})
	default:
		sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "fsync", F: storageFault(r, false)})
	}
	if r.P(0.1) {
		sc.Ops = append([]Op{{K: "create", N: int64(r.N(1 << 30))}}, sc.Ops...)
	}
	return sc
}

// creation sweeps faults over the creation of an index.
func (w *World) creation(seed uint64) *Violation {
	ops, wr, err := w.countOps(func(c *World) error { return c.open(nil) })
	if err != nil {
		return viol("open-error", "%v", err)
	}
	for _, kind := range []string{"err", "errp", "partial", "werr", "full"} {
		n := ops
		if kind != "err" && kind != "errp" {
			n = wr
		}
		for at := int64(0); at < n; at++ {
			w.st.Probe("sweep-point")
			what := fmt.Sprintf("creating the index with %s at %d of %d", kind, at, n)
			c := w.fork()
			err := c.open(&Fault{Kind: kind, At: at})
			if isPanic(err) {
				return viol("panic", "%s: %v", what, err)
			}
			if err != nil {
				continue
			}
			if err := c.open(nil); err != nil {
				return viol("swallowed-open-error", "%s reported success, but then: %v", what, err)
			}
			c.flush(int64(seed%40), true)
			if err := c.sync(nil); err != nil {
				return viol("swallowed-sync-error", "%s reported success, but then: %v", what, err)
			}
			if v := c.check(c.complete(), true); v != nil {
				v.Class = "swallowed-" + v.Class
				v.Msg = what + " reported success, but then: " + v.Msg
				return v
			}
		}
	}
	return nil
}

// fork copies a world so that a fault can be tried without consequences.
func (w *World) fork() *World {
	c := *w
	c.disk = w.disk.Clone()
	c.recs = append([]*placed(nil), w.recs...)
	c.f = nil
	c.pubs = nil
	c.sess = nil
	return &c
}

// countOps runs f on a fork and reports how many storage operations and writes
// the last call made.
func (w *World) countOps(f func(*World) error) (ops, writes int64, err error) {
	c := w.fork()
	err = f(c)
	if c.sess != nil {
		ops, writes = c.sess.ops, c.sess.wr
	}
	return
}

// place resolves a fault's position modulo the number of operations.
func place(f *Fault, ops, writes int64) *Fault {
	g := *f
	n := ops
	switch f.Kind {
	case "partial", "werr", "full", "crash":
		n = writes
	}
	if n < 1 {
		n = 1
	}
	g.At = f.At % n
	return &g
}

func syncFork(c *World) error {
	if err := c.open(nil); err != nil {
		return err
	}
	return c.sync(nil)
}

// faultySync runs one synchronization with a fault in a world and checks what
// C05 demands of it. It reports whether the synchronization failed.
func (w *World) faultySync(f *Fault) (bool, *Violation) {
	err := w.sync(f)
	fired := w.sess.fired
	if isPanic(err) {
		return true, viol("panic", "synchronize with %s at %d: %v", f.Kind, f.At, err)
	}
	if err != nil {
		if !fired {
			return true, viol("sync-error", "synchronize without a fault: %v", err)
		}
		return true, nil
	}
	if !fired {
		return false, nil
	}
	if v := w.check(w.complete(), true); v != nil {
		v.Class = "swallowed-" + v.Class
		v.Msg = "synchronize reported success although its storage failed (" + f.Kind + "): " + v.Msg
		return false, v
	}
	// the fault may have hit something that does not matter, which is fine
	w.st.Probe("harmless-fault")
	return false, nil
}

// faultyRead opens or reads the index with a fault and compares what it sees.
func (w *World) faultyRead(f *Fault, seed uint64) *Violation {
	read := func(f *Fault) (*Logical, *Sess, error) {
		s := NewSess(w.disk, w.st)
		s.Begin(f)
		defer s.End()
		var l *Logical
		err := try(func() error {
			x, err := appendable.NewIndexFile(s.Handle(), handlerFor(w.csv), w.search)
			if err != nil {
				return err
			}
			if _, err := x.IsEmpty(); err != nil {
				return err
			}
			names, err := x.IndexFieldNames()
			if err != nil {
				return err
			}
			l, err = readIndex(x, w.df(), w.csv)
			if err != nil {
				return err
			}
			seen := map[string]bool{}
			for _, k := range l.Order {
				seen[k.Field] = true
			}
			for _, n := range names {
				if !seen[n] {
					return &panicError{"IndexFieldNames reports " + n, "reader"}
				}
				delete(seen, n)
			}
			if len(seen) != 0 {
				return &panicError{"IndexFieldNames lacks names", "reader"}
			}
			return nil
		})
		return l, s, err
	}
	before := append([]byte(nil), w.disk.buf...)
	good, s0, err := read(nil)
	if err != nil {
		return viol("read-error", "reading the index: %v", err)
	}
	g := f
	if f.At >= 0 {
		g = place(f, s0.ops, s0.wr)
	}
	l, s, err := read(g)
	if !bytes.Equal(before, w.disk.buf) {
		return viol("read-modifies", "reading the index with failing storage changed it")
	}
	if isPanic(err) {
		return viol("panic", "reading with %s at operation %d of %d: %v", g.Kind, g.At, s0.ops, err)
	}
	if err != nil {
		if !s.fired {
			return viol("read-error", "reading the index again: %v", err)
		}
		return nil
	}
	if d := logicalDiff(good, l); d != "" {
		return viol("swallowed-read", "a failed storage operation (%s at %d of %d) was not reported and the contents read are wrong: %s", g.Kind, g.At, s0.ops, d)
	}
	return nil
}

// faultyLookup searches one tree with a fault.
func (w *World) faultyLookup(f *Fault, seed uint64) *Violation {
	if w.f == nil {
		return nil
	}
	l, err := w.readCurrent()
	if err != nil {
		return viol("read-error", "%v", err)
	}
	if len(l.Order) == 0 {
		return nil
	}
	r := NewRng(seed)
	k := l.Order[r.N(len(l.Order))]
	keys := l.Keys[k]
	if len(keys) == 0 {
		return nil
	}
	at := r.N(len(keys))
	key := keys[at]
	t := treeOf(l.pages[k], k, w.df(), w.csv)
	search := func(f *Fault) (c bool, n int, ops int64, fired bool, err error) {
		w.sess.Begin(f)
		defer w.sess.End()
		err = try(func() error {
			c, err = t.Contains(key)
			if err != nil {
				return err
			}
			got, _, err := t.Find(key)
			if err != nil {
				return err
			}
			if cmpKeys(got, key) != 0 {
				return &panicError{"Find returned another key", "reader"}
			}
			it, err := t.Iter(key)
			if err != nil {
				return err
			}
			for n < 400 && it.Prev() {
				n++
			}
			return it.Err()
		})
		return c, n, w.sess.ops, w.sess.fired, err
	}
	_, n0, ops, _, err := search(nil)
	if err != nil {
		return viol("lookup-error", "%v", err)
	}
	g := place(f, ops, 1)
	c, n, _, fired, err := search(g)
	if isPanic(err) {
		return viol("panic", "lookup with %s at operation %d of %d: %v", g.Kind, g.At, ops, err)
	}
	if err != nil {
		if !fired {
			return viol("lookup-error", "%v", err)
		}
		return nil
	}
	if !c || n != n0 {
		return viol("swallowed-lookup", "a failed storage operation (%s at %d of %d) was not reported: Contains %v, %d keys before it, expected %d", g.Kind, g.At, ops, c, n, n0)
	}
	return nil
}

func (p propC05) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		stop := false
		switch o.K {
		case "create":
			if w.f == nil && len(w.disk.buf) == 0 {
				v = w.creation(uint64(o.N))
			}
		case "fopen":
			if len(w.disk.buf) == 0 || w.f == nil || o.F == nil {
				break
			}
			ops, wr, err := w.countOps(func(c *World) error { return c.open(nil) })
			if err != nil {
				v = viol("open-error", "%v", err)
				break
			}
			before := append([]byte(nil), w.disk.buf...)
			c := w.fork()
			f := place(o.F, ops, wr)
			err = c.open(f)
			if isPanic(err) {
				v = viol("panic", "opening with %s at %d: %v", f.Kind, f.At, err)
			} else if err == nil {
				if v = c.check(w.syncedN, false); v != nil {
					v.Class = "swallowed-" + v.Class
					v.Msg = "opening reported success although its storage failed: " + v.Msg
				}
			}
			if v == nil && !bytes.Equal(before, c.disk.buf) {
				v = viol("open-modifies", "opening with failing storage changed the index")
			}
		case "fread":
			if w.f != nil && o.F != nil {
				v = w.faultyRead(o.F, uint64(o.N))
				if v == nil {
					v = w.faultyLookup(o.F, uint64(o.N))
				}
			}
		case "ffork":
			// what if the next synchronization hit a fault
			if o.F == nil {
				break
			}
			c := w.fork()
			c.flush(o.N, o.M != 0)
			ops, wr, err := c.countOps(syncFork)
			if err != nil {
				v = viol("sync-error", "%v", err)
				break
			}
			if err := c.open(nil); err != nil {
				v = viol("open-error", "%v", err)
				break
			}
			_, v = c.faultySync(place(o.F, ops, wr))
		case "fsync":
			if o.F == nil {
				break
			}
			if w.f == nil {
				// creating the index is part of the call
				c := w.fork()
				err := c.open(o.F)
				if isPanic(err) {
					v = viol("panic", "creating the index: %v", err)
				} else if err == nil {
					if err := c.sync(nil); err != nil {
						v = viol("sync-error", "after creating the index: %v", err)
					} else if v = c.check(c.complete(), true); v != nil {
						v.Class = "swallowed-" + v.Class
						v.Msg = "creating the index reported success although its storage failed: " + v.Msg
					}
				}
				if v != nil {
					break
				}
				if err := w.open(nil); err != nil {
					v = viol("open-error", "%v", err)
					break
				}
			}
			ops, wr, err := w.countOps(syncFork)
			if err != nil {
				v = viol("sync-error", "%v", err)
				break
			}
			stop, v = w.faultySync(place(o.F, ops, wr))
		case "sweep":
			ops, wr, err := w.countOps(syncFork)
			if err != nil {
				v = viol("sync-error", "%v", err)
				break
			}
			n := ops
			if o.S != "err" {
				n = wr
			}
			step := n / max(o.M, 1)
			if step < 1 {
				step = 1
			}
			for at, s0 := o.N%step, st.Steps; at < n && v == nil && st.Steps-s0 < sweepSteps; at += step {
				c := w.fork()
				if err := c.open(nil); err != nil {
					v = viol("open-error", "%v", err)
					break
				}
				_, v = c.faultySync(&Fault{Kind: o.S, At: at})
				st.Probe("sweep-point")
			}
		case "sweepread":
			if w.f == nil {
				break
			}
			for at := int64(0); at < o.M && v == nil; at++ {
				v = w.faultyRead(&Fault{Kind: "err", At: int64(mix(uint64(o.N)+uint64(at)) >> 1)}, 0)
				if v == nil {
					v = w.faultyLookup(&Fault{Kind: "err", At: int64(mix(uint64(o.N)+uint64(at)) >> 1)}, uint64(o.N+at))
				}
				st.Probe("sweep-point")
			}
		default:
			_, v = w.step(i, o)
		}
		if v != nil {
			v.Step = i
			return v
		}
		if stop {
			break
		}
	}
	w.probes()
	return nil
}

// ---------------------------------------------------------------- C06

type propC06 struct{}

func (p propC06) Gen(r *Rng, big bool) *Scenario {
	if r.P(0.03) {
		return genSplits(r, "C06")
	}
	if r.P(0.03) {
		sc := genFields(r, "C06")
		sc.Ops = append(sc.Ops, Op{K: "csweep", S: pick(r, []string{"crash", "crash", "full", "werr"}), M: 1 << 20, L: int64(r.N(4))})
		return sc
	}
	n := 0
	sc := genDocs(r, big, "C06", docOpts{csv: -1, syncP: 0.3, reopenP: 0.1, checkP: 0, probeP: 0, flushAll: 0.5, maxRecs: 250, extraP: 0.2, extra: func(r *Rng, g *docGen) []Op {
		if r.P(0.8) {
			return []Op{{K: "cfork", F: storageFault(r, true), M: int64(r.N(2)), N: int64(r.N(300)), L: int64(r.N(4))}}
		}
		n++
		return []Op{{K: "flush", M: 1}, {K: "crash", F: storageFault(r, true), L: int64(r.N(4))}}
	}})
	sc.Ops = sc.Ops[:len(sc.Ops)-4]
	if r.P(0.5) {
		sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "csweep", S: pick(r, []string{"crash", "crash", "full", "werr"}), N: int64(r.N(1 << 30)), M: int64(r.In(20, 80)), L: int64(r.N(4))})
	}
	sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "crash", F: storageFault(r, true), L: int64(r.N(4))}, Op{K: "sync"}, Op{K: "check", N: 1})
	return sc
}

// afterFault checks an index whose synchronization was interrupted: wherever it
// can be opened and read it must hold everything acknowledged and nothing wrong.
func (w *World) afterFault(acked int, what string) (dead bool, v *Violation) {
	// every complete record may have been indexed
	l, err := w.read(w.disk.Clone(), w.df())
	if err != nil {
		if isPanic(err) {
			w.st.Probe("panic-reading-interrupted-index")
			w.st.Probe("panic: " + err.Error())
		}
		w.st.Probe("interrupted-index-reports-error")
		return true, nil
	}
	w.st.Probe("interrupted-index-readable")
	if v := compare(l, w.model(acked), compareOpts{subset: true, all: w.model(w.complete())}); v != nil {
		v.Class = "interrupted-" + v.Class
		v.Msg = what + ": " + v.Msg
		return false, v
	}
	return false, nil
}

// interrupted runs a synchronization that is interrupted and the recovery from
// it. It reports whether the history goes on.
func (w *World) interrupted(f *Fault, mode int64) (bool, *Violation) {
	acked := w.syncedN
	if w.f == nil {
		var g *Fault
		if mode&2 != 0 {
			ops, wr, err := w.countOps(func(c *World) error { return c.open(nil) })
			if err != nil {
				return false, viol("open-error", "%v", err)
			}
			g = place(f, ops, wr)
		}
		var err error
		died := crashed(func() { err = w.open(g) })
		if isPanic(err) {
			return false, viol("panic", "creating the index: %v", err)
		}
		if died || err != nil {
			if g == nil {
				return false, viol("open-error", "%v", err)
			}
			w.st.Probe("interrupted-creation")
			if len(w.disk.buf) > 0 {
				if _, v := w.afterFault(0, "after "+g.Kind+" while creating the index"); v != nil {
					return false, v
				}
			}
			if w.open(nil) != nil {
				w.st.Probe("interrupted-creation-reports-error")
				return false, nil
			}
		}
	}
	ops, wr, err := w.countOps(syncFork)
	if err != nil {
		return false, viol("sync-error", "%v", err)
	}
	g := place(f, ops, wr)
	died := crashed(func() { err = w.sync(g) })
	if !died && err == nil {
		if w.sess.fired {
			if v := w.check(w.complete(), true); v != nil {
				v.Class = "swallowed-" + v.Class
				return false, v
			}
		}
		return true, nil
	}
	w.syncedN = acked
	if !died && !w.sess.fired {
		return false, viol("sync-error", "synchronize without a fault: %v", err)
	}
	if isPanic(err) {
		return false, viol("panic", "synchronize with %s at %d: %v", g.Kind, g.At, err)
	}
	what := "after " + g.Kind + " in a synchronization"
	if _, v := w.afterFault(acked, what); v != nil {
		return false, v
	}
	// try again: in the same process or in a new one
	retry := func() error {
		if died || mode&1 == 0 {
			if err := w.open(nil); err != nil {
				return err
			}
		}
		return w.sync(nil)
	}
	err = retry()
	if err == nil {
		w.st.Probe("recovered")
		if v := w.check(w.complete(), true); v != nil {
			v.Class = "resync-" + v.Class
			v.Msg = what + " a later synchronization reported success: " + v.Msg
			return false, v
		}
		return true, nil
	}
	w.syncedN = acked
	w.st.Probe("retry-reports-error")
	if isPanic(err) {
		w.st.Probe("retry-panics: " + err.Error())
	}
	// it goes on failing or succeeds completely
	if _, v := w.afterFault(acked, what+" and a failed retry"); v != nil {
		return false, v
	}
	err = w.open(nil)
	if err == nil {
		err = w.sync(nil)
	}
	if err == nil {
		if v := w.check(w.complete(), true); v != nil {
			v.Class = "resync-" + v.Class
			v.Msg = what + " a second retry reported success: " + v.Msg
			return false, v
		}
		return true, nil
	}
	w.syncedN = acked
	if _, v := w.afterFault(acked, what+" and two failed retries"); v != nil {
		return false, v
	}
	return false, nil
}

func (p propC06) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		on := true
		switch o.K {
		case "cfork":
			if o.F == nil {
				break
			}
			c := w.fork()
			c.flush(o.N, o.M != 0)
			if w.f != nil {
				if err := c.open(nil); err != nil {
					v = viol("open-error", "%v", err)
					break
				}
			}
			_, v = c.interrupted(o.F, o.L)
		case "crash":
			if o.F != nil {
				on, v = w.interrupted(o.F, o.L)
			}
		case "csweep":
			_, wr, err := w.countOps(syncFork)
			if err != nil {
				v = viol("sync-error", "%v", err)
				break
			}
			step := wr / max(o.M, 1)
			if step < 1 {
				step = 1
			}
			for at, s0 := o.N%step, st.Steps; at < wr && v == nil && st.Steps-s0 < sweepSteps; at += step {
				c := w.fork()
				if w.f != nil {
					if err := c.open(nil); err != nil {
						v = viol("open-error", "%v", err)
						break
					}
				}
				_, v = c.interrupted(&Fault{Kind: o.S, At: at}, o.L)
				st.Probe("sweep-point")
			}
		default:
			var before *World
			if o.K == "sync" && sc.Cfg["split"] != 0 {
				before = w.fork()
			}
			_, v = w.step(i, o)
			if v == nil && before != nil && len(w.disk.buf) >= len(before.disk.buf)+2*pageLen {
				v = before.splits(func(c *World, f *Fault) *Violation {
					if err := c.open(nil); err != nil {
						return viol("open-error", "%v", err)
					}
					_, v := c.interrupted(f, f.At&1)
					return v
				})
			}
		}
		if v != nil {
			v.Step = i
			return v
		}
		if !on {
			break
		}
	}
	w.probes()
	return nil
}
