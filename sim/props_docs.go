package main

import (
	"bytes"
	"hash/fnv"
)

// ---------------------------------------------------------------- C01, C02

type propDocs struct{ csv int }

func (p propDocs) Gen(r *Rng, big bool) *Scenario {
	id := "C01"
	if p.csv == 1 {
		id = "C02"
	}
	sc := genDocs(r, big, id, docOpts{csv: p.csv, syncP: 0.3, reopenP: 0.1, checkP: 0.3, probeP: 0.2, flushAll: 0.4})
	setGap(sc, r)
	return sc
}

func (p propDocs) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	for i := range sc.Ops {
		if _, v := w.step(i, &sc.Ops[i]); v != nil {
			v.Step = i
			return v
		}
	}
	w.probes()
	return nil
}

// probes records what kinds of situations a world reached.
func (w *World) probes() {
	if w.base != 0 {
		w.st.Probe("data-beyond-4GiB")
	}
	if len(w.disk.buf) > 4096*20 {
		w.st.Probe("index>20-pages")
	}
	if w.syncedN >= 2 {
		w.st.curTriv = true
	}
	if w.f == nil {
		return
	}
	n := 0
	mp, err := w.f.Indexes()
	for err == nil {
		n++
		mp, err = mp.Next()
	}
	if n > 15 {
		w.st.Probe(">15-indexes")
	}
	if n > 30 {
		w.st.Probe(">30-indexes")
	}
}

// ---------------------------------------------------------------- C03

type propC03 struct{}

func (p propC03) Gen(r *Rng, big bool) *Scenario {
	sc := genDocs(r, big, "C03", docOpts{csv: -1, syncP: 0.4, reopenP: 0.15, flushAll: 0.4, maxRecs: 400})
	if r.P(0.1) {
		sc.Cfg["mmap"] = 1
	}
	return sc
}

func sum(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (p propC03) Run(sc *Scenario, st *Stats) *Violation {
	// the history as it is, twice, on different kinds of storage
	run := func(style int64, short bool) (*World, *Violation) {
		c := *sc
		c.Cfg = map[string]int64{}
		for k, v := range sc.Cfg {
			c.Cfg[k] = v
		}
		c.Cfg["style"] = style
		if !short {
			c.Cfg["short"] = 0
		}
		w := NewWorld(&c, st)
		for i := range sc.Ops {
			o := &sc.Ops[i]
			if o.K == "check" || o.K == "probe" {
				continue
			}
			before, n := append([]byte(nil), w.disk.buf...), w.syncedN
			existed := w.f != nil
			if _, v := w.step(i, o); v != nil {
				v.Step = i
				return nil, v
			}
			if o.K == "reopen" && existed || o.K == "sync" && existed && w.complete() == n {
				st.Probe("no-op")
				if !bytes.Equal(before, w.disk.buf) {
					v := viol("noop-writes", "%s without new records changed the index (%d -> %d bytes)", o.K, len(before), len(w.disk.buf))
					v.Step = i
					return nil, v
				}
			}
		}
		if w.f == nil {
			if err := w.open(nil); err != nil {
				return nil, viol("open-error", "%v", err)
			}
		}
		if err := w.sync(nil); err != nil {
			return nil, viol("sync-error", "%v", err)
		}
		return w, nil
	}
	a, v := run(0, true)
	if v != nil {
		return v
	}
	b, v := run(1, false)
	if v != nil {
		return v
	}
	if !bytes.Equal(a.disk.buf, b.disk.buf) {
		return viol("nondeterministic", "the same history gave different index files (%d and %d bytes, first difference at %d)", len(a.disk.buf), len(b.disk.buf), firstDiff(a.disk.buf, b.disk.buf))
	}
	if sc.Cfg["mmap"] != 0 {
		buf, v := mmapHistory(sc, st)
		if v != nil {
			return v
		}
		if !bytes.Equal(buf, a.disk.buf) {
			return viol("nondeterministic", "the memory-mapped index differs from the in-memory one (%d and %d bytes, first difference at %d)", len(buf), len(a.disk.buf), firstDiff(buf, a.disk.buf))
		}
		st.Probe("mmap-history")
	}
	// one synchronization of the final data
	c := NewWorld(sc, st)
	for i := range sc.Ops {
		if sc.Ops[i].K == "rec" || sc.Ops[i].K == "flush" {
			c.step(i, &sc.Ops[i])
		}
	}
	if err := c.open(nil); err != nil {
		return viol("open-error", "%v", err)
	}
	if err := c.sync(nil); err != nil {
		return viol("sync-error", "%v", err)
	}
	la, err := a.read(a.disk.Clone(), a.df())
	if err != nil {
		return viol("read-error", "%v", err)
	}
	lc, err := c.read(c.disk.Clone(), c.df())
	if err != nil {
		return viol("read-error", "%v", err)
	}
	if d := logicalDiff(la, lc); d != "" {
		return viol("batching", "piecewise and one-shot synchronization differ: %s", d)
	}
	a.probes()
	return nil
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// ---------------------------------------------------------------- C07

type propC07 struct{}

func (p propC07) Gen(r *Rng, big bool) *Scenario {
	nbad := 0
	maxBad := r.In(1, 3)
	sc := genDocs(r, big, "C07", docOpts{csv: -1, syncP: 0.3, reopenP: 0.1, checkP: 0.3, probeP: 0.05, flushAll: 0.6, maxRecs: 120, extraP: 0.15, extra: func(r *Rng, g *docGen) []Op {
		if nbad >= maxBad {
			return nil
		}
		nbad++
		ops := []Op{{K: "bad", Rec: g.Bad()}}
		if r.P(0.8) {
			ops = append(ops, Op{K: "flush", M: int64(r.N(2)), N: int64(r.N(200))}, Op{K: "sync"})
		}
		for r.P(0.4) {
			ops = append(ops, pick(r, []Op{{K: "sync"}, {K: "reopen"}, {K: "rec", Rec: g.Rec()}, {K: "flush", M: 1}}))
		}
		if r.P(0.9) {
			ops = append(ops, Op{K: "repair", Rec: g.Rec()})
			if r.P(0.7) {
				ops = append(ops, Op{K: "sync"})
			}
		}
		return ops
	}})
	// repair everything at the end
	g := newDocGen(r, sc.Cfg["csv"] != 0)
	g.search, g.smap = nil, map[string]bool{}
	for _, s := range sc.Strs {
		g.smap[s] = true
	}
	g.ragged = 0
	if g.csv {
		for _, o := range sc.Ops {
			if o.Rec != nil && o.Rec.Header {
				g.headers = g.headers[:0]
				for _, c := range o.Rec.Cells {
					g.headers = append(g.headers, c.V)
				}
			}
		}
	}
	for i := 0; i < nbad; i++ {
		sc.Ops = append(sc.Ops, Op{K: "repair", Rec: g.Rec()}, Op{K: "sync"}, Op{K: "check", N: 1})
	}
	sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sync"}, Op{K: "check", N: 1})
	return sc
}

func (p propC07) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	at := func(i int, v *Violation) *Violation {
		if v != nil {
			v.Step = i
		}
		return v
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		switch o.K {
		case "bad":
			if o.Rec != nil && o.Rec.IsBad && (!w.csv || len(w.recs) > 0) {
				w.add(o.Rec)
			}
		case "repair":
			if w.repair(o.Rec) {
				st.Probe("repair")
			}
		case "sync":
			if w.f == nil {
				if err := w.open(nil); err != nil {
					return at(i, viol("open-error", "%v", err))
				}
			}
			isBad := w.firstBad() < w.complete()
			err := w.sync(nil)
			if isPanic(err) {
				return at(i, viol("panic", "%v", err))
			}
			if isBad {
				st.Fault("malformed-record")
				if err == nil {
					return at(i, viol("unreported", "synchronizing the malformed record %q (line %d) reported success", short(w.recs[w.firstBad()].text, 200), w.firstBad()))
				}
				w.syncedN = w.firstBad()
			} else if err != nil {
				return at(i, viol("sync-error", "synchronize with %d well-formed records: %v", w.complete(), err))
			}
			if v := at(i, w.check(w.syncedN, i%2 == 0)); v != nil {
				if isBad {
					v.Msg = "after a malformed record: " + v.Msg
				}
				return v
			}
		default:
			if _, v := w.step(i, o); v != nil {
				return at(i, v)
			}
		}
	}
	w.probes()
	return nil
}

// ---------------------------------------------------------------- C11

type propC11 struct{}

func (p propC11) Gen(r *Rng, big bool) *Scenario {
	return genDocs(r, big, "C11", docOpts{csv: -1, syncP: 0.4, reopenP: 0.1, checkP: 0, probeP: 0, flushAll: 0.4, maxRecs: 250, extraP: 0.4, extra: func(r *Rng, g *docGen) []Op {
		switch r.N(4) {
		case 0:
			return []Op{{K: "pub"}}
		case 1:
			return []Op{{K: "old", N: int64(r.N(1000))}}
		case 2:
			return []Op{{K: "flush", N: int64(r.N(60))}}
		}
		return []Op{{K: "tail", N: int64(r.N(1 << 30))}}
	}})
}

func (p propC11) Run(sc *Scenario, st *Stats) *Violation {
	w := NewWorld(sc, st)
	readOld := func(p published) *Violation {
		d := &Disk{buf: append([]byte(nil), p.buf...), style: w.disk.style, gap: w.disk.gap}
		l, err := w.read(d, w.df())
		if err != nil {
			return viol("read-error", "reading an older index against newer data: %v", err)
		}
		if v := compare(l, p.model, compareOpts{}); v != nil {
			v.Msg = "older index against newer data: " + v.Msg
			return v
		}
		st.Probe("old-index-read")
		return nil
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		switch o.K {
		case "pub":
			if w.f != nil && len(w.pubs) < 8 {
				w.pubs = append(w.pubs, published{append([]byte(nil), w.disk.buf...), w.model(w.syncedN)})
			}
		case "old":
			if len(w.pubs) > 0 {
				v = readOld(w.pubs[int(o.N)%len(w.pubs)])
			}
		case "tail":
			// bytes after the last complete record must not matter
			if w.f == nil || w.base != 0 {
				break
			}
			r := NewRng(uint64(o.N))
			n := w.complete()
			end := 0
			if n > 0 {
				end = w.recs[n-1].off + w.recs[n-1].len + 1
			}
			d1, d2 := w.disk.Clone(), w.disk.Clone()
			for j, d := range []*Disk{d1, d2} {
				df := append([]byte(nil), w.stream[:end]...)
				if j == 1 {
					for k := r.N(80); k > 0; k-- {
						b := byte(r.N(256))
						if r.P(0.5) {
							b = `{}",:[]0ax `[r.N(11)]
						}
						if b != '\n' {
							df = append(df, b)
						}
					}
				}
				x := NewWorld(sc, st)
				x.disk = d
				if err := x.open(nil); err != nil {
					return viol("open-error", "%v", err)
				}
				if err := try(func() error { return x.f.Synchronize(df) }); err != nil {
					v = viol("tail-error", "synchronize with an incomplete last record: %v", err)
				}
			}
			if v == nil && !bytes.Equal(d1.buf, d2.buf) {
				v = viol("tail-matters", "bytes after the last complete record changed the index (first difference at %d)", firstDiff(d1.buf, d2.buf))
			}
			st.Probe("tail")
		case "sync":
			before := sum(w.df()[w.base:])
			_, v = w.step(i, o)
			if v == nil && sum(w.df()[w.base:]) != before {
				v = viol("data-modified", "synchronization modified the data file")
			}
		default:
			_, v = w.step(i, o)
		}
		if v != nil {
			v.Step = i
			return v
		}
	}
	for _, p := range w.pubs {
		if v := readOld(p); v != nil {
			v.Step = len(sc.Ops)
			return v
		}
	}
	w.probes()
	return nil
}
