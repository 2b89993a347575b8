package main

import (
	"encoding/binary"
	"fmt"
	"strconv"

	"github.com/kevmo314/appendable/pkg/pointer"
)

// ---------------------------------------------------------------- C27

// propC27 looks at the bytes of the index file, the way the browser client and
// the next process meet them, with a reader of its own: nothing of the code
// under test takes part in the judgement (but for the parsing of a key that is
// kept in the data file).
type propC27 struct{}

func init() {
	props["C27"] = propInfo{propC27{}, 8000, "A history of records, synchronizations, restarts and interruptions by a crash or failing storage, or a sequence of insertions into one tree, with the bytes of the index file examined after every step; non-trivial: at least two records or keys.", realGo, stubDisk}
}

const pageLen = 4096

// image is an index file taken apart.
type image struct {
	buf   []byte
	use   map[int64]string // what each page is used for
	trees []imageTree
	free  int
	nodes int
	depth int
}

type imageTree struct {
	slot int
	name string
	keys int
}

type slotInfo struct {
	width int // 0: keys are in the data file
	key   func(off, n uint64) ([]byte, error)
	name  string
}

func (m *image) take(off uint64, what string) error {
	if off%pageLen != 0 || off == 0 || off >= uint64(len(m.buf)) {
		return fmt.Errorf("%s is at %d, which is no page of the %d bytes of the file", what, off, len(m.buf))
	}
	if u, ok := m.use[int64(off)]; ok {
		return fmt.Errorf("page %d is used twice: as %s and as %s", off/pageLen, u, what)
	}
	m.use[int64(off)] = what
	return nil
}

func (m *image) page(off uint64) []byte { return m.buf[off : off+pageLen] }

// takeApart reads an index file. info tells how the tree of a slot keeps its
// keys; a slot it doesn't know must have no tree.
func takeApart(buf []byte, info func(slot int, meta []byte) (*slotInfo, error)) (*image, error) {
	m := &image{buf: buf, use: map[int64]string{}}
	if len(buf)%pageLen != 0 {
		return m, fmt.Errorf("the file has %d bytes, which is no whole number of pages", len(buf))
	}
	if len(buf) == 0 {
		return m, nil
	}
	// the list of free pages comes first: what it names must not be in use
	for i := 0; i < pageLen; i += 8 {
		off := binary.LittleEndian.Uint64(buf[i:])
		if off == 0 {
			break // this ends the list
		}
		if err := m.take(off, fmt.Sprintf("entry %d of the list of free pages", i/8)); err != nil {
			return m, err
		}
		m.free++
	}
	if len(buf) == pageLen {
		return m, nil
	}
	slot := 0
	for off, n := uint64(pageLen), 0; off != ^uint64(0); n++ {
		if err := m.take(off, fmt.Sprintf("page %d of slots", n)); err != nil {
			return m, err
		}
		p := m.page(off)
		count := int(p[8])
		if count > 15 {
			return m, fmt.Errorf("page %d of slots counts %d slots", n, count)
		}
		next := binary.LittleEndian.Uint64(p)
		if count < 15 && next != ^uint64(0) {
			return m, fmt.Errorf("page %d of slots has %d slots and is followed by another at %d", n, count, next)
		}
		for i := 0; i < count; i++ {
			s := p[9+i*265 : 9+(i+1)*265]
			root, rlen := binary.LittleEndian.Uint64(s), binary.LittleEndian.Uint32(s[8:])
			if int(s[12]) > 252 {
				return m, fmt.Errorf("slot %d has %d bytes of metadata", slot, s[12])
			}
			inf, err := info(slot, s[13:13+int(s[12])])
			if err != nil {
				return m, fmt.Errorf("slot %d: %w", slot, err)
			}
			if rlen != 0 {
				if inf == nil {
					return m, fmt.Errorf("slot %d has a tree", slot)
				}
				t := imageTree{slot: slot, name: inf.name}
				depth := 0
				if err := m.tree(root, inf, 1, nil, nil, &t, &depth); err != nil {
					return m, fmt.Errorf("the tree of slot %d (%s): %w", slot, inf.name, err)
				}
				m.trees = append(m.trees, t)
				m.depth = max(m.depth, depth)
			}
			slot++
		}
		off = next
	}
	return m, nil
}

// tree checks the nodes below off, whose keys are at least lo and less than hi.
func (m *image) tree(off uint64, inf *slotInfo, level int, lo, hi *pointer.ReferencedValue, t *imageTree, depth *int) error {
	if err := m.take(off, fmt.Sprintf("a node of the tree of slot %d", t.slot)); err != nil {
		return err
	}
	m.nodes++
	p := m.page(off)
	n := int(int32(binary.LittleEndian.Uint32(p)))
	leaf := n < 0
	if leaf {
		n = -n
	}
	if n == 0 || n > pageLen {
		return fmt.Errorf("the node at %d has %d keys", off, n)
	}
	at := 4
	var bad error
	num := func() uint64 {
		v, k := binary.Uvarint(p[min(at, pageLen):])
		if k <= 0 {
			if bad == nil {
				bad = fmt.Errorf("the node at %d ends within its %d entries", off, n)
			}
			return 0
		}
		at += k
		return v
	}
	keys := make([]pointer.ReferencedValue, n)
	for i := range keys {
		o, l := num(), num()
		keys[i].DataPointer = pointer.MemoryPointer{Offset: o, Length: uint32(l)}
		if bad == nil && l > 1<<32-1 {
			return fmt.Errorf("key %d of the node at %d has the length %d", i, off, l)
		}
		if inf.width > 0 {
			if at+inf.width-1 > pageLen {
				return fmt.Errorf("the node at %d ends within its %d entries", off, n)
			}
			keys[i].Value = p[at : at+inf.width-1]
			at += inf.width - 1
		} else if bad == nil {
			v, err := inf.key(o, l)
			if err != nil {
				return fmt.Errorf("key %d of the node at %d: %w", i, off, err)
			}
			keys[i].Value = v
		}
		if bad != nil {
			return bad
		}
		if i > 0 && cmpKeys(keys[i-1], keys[i]) >= 0 {
			return fmt.Errorf("keys %d and %d of the node at %d are not in order", i-1, i, off)
		}
		if lo != nil && cmpKeys(keys[i], *lo) < 0 || hi != nil && cmpKeys(keys[i], *hi) >= 0 {
			return fmt.Errorf("key %d of the node at %d is outside what the nodes above allow", i, off)
		}
	}
	if leaf {
		for range keys {
			num()
			num()
		}
		t.keys += n
		if *depth == 0 {
			*depth = level
		}
		if bad == nil && *depth != level {
			return fmt.Errorf("the leaf at %d is at level %d, another at level %d", off, level, *depth)
		}
		return bad
	}
	kids := make([]uint64, n+1)
	for i := range kids {
		kids[i] = num()
	}
	if bad != nil {
		return bad
	}
	for i, kid := range kids {
		l, h := lo, hi
		if i > 0 {
			l = &keys[i-1]
		}
		if i < n {
			h = &keys[i]
		}
		if err := m.tree(kid, inf, level+1, l, h, t, depth); err != nil {
			return err
		}
	}
	return nil
}

// lost is a page that nothing refers to.
func (m *image) lost() (int64, bool) {
	for off := int64(pageLen); off < int64(len(m.buf)); off += pageLen {
		if _, ok := m.use[off]; !ok {
			return off / pageLen, true
		}
	}
	return 0, false
}

// fsck examines the index file of a document world. clean says that nothing has
// interfered with it so far, so that nothing may be missing either.
func (w *World) fsck(clean bool) *Violation {
	df := w.df()
	m, err := takeApart(w.disk.buf, func(slot int, meta []byte) (*slotInfo, error) {
		if slot == 0 {
			if clean && (len(meta) < 11 || meta[1] != 0 == !w.csv) {
				return nil, fmt.Errorf("the description of the file is %x", meta)
			}
			return nil, nil
		}
		if len(meta) == 0 && !clean {
			return nil, nil // the process died between making it and describing it
		}
		if len(meta) < 7 {
			return nil, fmt.Errorf("the description of an index is %x", meta)
		}
		typ, n := int(binary.LittleEndian.Uint16(meta)), int(binary.LittleEndian.Uint16(meta[4:]))
		if 6+n >= len(meta) {
			return nil, fmt.Errorf("the description of an index is %x", meta)
		}
		inf := &slotInfo{name: fmt.Sprintf("%q of type %d", meta[6:6+n], typ)}
		if !w.csv {
			inf.width = widthOf(typ)
			if got := int(binary.LittleEndian.Uint16(meta[2:])); got != inf.width {
				return nil, fmt.Errorf("the index %s states the width %d", inf.name, got)
			}
		}
		inf.key = func(off, n uint64) ([]byte, error) {
			if off+n < off || off+n > uint64(len(df)) {
				return nil, fmt.Errorf("%d bytes at %d are not in the data file of %d bytes", n, off, len(df))
			}
			return handlerFor(w.csv).Parse(df[off : off+n]), nil
		}
		return inf, nil
	})
	if err != nil {
		return viol("malformed-file", "the index file: %v", err)
	}
	w.st.Probe("examined")
	if m.depth > 1 {
		w.st.Probe("examined-deep-tree")
	}
	if m.free > 0 {
		w.st.Probe("examined-free-pages")
	}
	if clean {
		if n, yes := m.lost(); yes {
			return viol("lost-page", "page %d of the %d pages of the index file is neither used nor free", n, len(w.disk.buf)/pageLen)
		}
		if w.syncedN > 0 {
			want := map[string]int{}
			mod := w.model(w.syncedN)
			for k, es := range mod.Entries {
				want[fmt.Sprintf("%q of type %d", k.Field, k.Type)] += len(es)
			}
			for _, t := range m.trees {
				if want[t.name] != t.keys {
					return viol("wrong-count", "the tree of %s has %d keys, expected %d", t.name, t.keys, want[t.name])
				}
			}
		}
	}
	return nil
}

func (p propC27) Gen(r *Rng, big bool) *Scenario {
	if r.P(0.25) {
		sc := propC04{}.Gen(r, big)
		delete(sc.Cfg, "short")
		sc.Cfg["tree"] = 1
		if r.P(0.5) {
			sc.Cfg["split"] = 1
		}
		var ops []Op
		n := 0
		for _, o := range sc.Ops {
			if o.K == "ins" {
				n++
			}
		}
		for _, o := range sc.Ops {
			switch o.K {
			case "ins", "dup", "reopen", "badwidth":
				ops = append(ops, o)
				if r.P(10 / float64(n)) {
					ops = append(ops, Op{K: "examine"})
				}
				if r.P(2 / float64(n)) {
					ops = append(ops, Op{K: "fault", F: storageFault(r, true)})
				}
			}
		}
		sc.Ops = append(ops, Op{K: "examine"})
		return sc
	}
	if r.P(0.05) {
		return genSplits(r, "C27")
	}
	faults := r.P(0.6)
	sc := genDocs(r, big, "C27", docOpts{csv: -1, syncP: 0.3, reopenP: 0.1, flushAll: 0.5, extraP: 0.1, extra: func(r *Rng, g *docGen) []Op {
		if !faults {
			return nil
		}
		return []Op{{K: "flush", N: int64(r.N(300)), M: int64(r.N(2))}, {K: "crash", F: storageFault(r, true), L: int64(r.N(4))}}
	}})
	sc.Ops = sc.Ops[:len(sc.Ops)-2]
	if faults && r.P(0.5) {
		sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "csweep", S: pick(r, []string{"crash", "crash", "werr", "full"}), N: int64(r.N(1 << 30)), M: int64(r.In(20, 80))})
	}
	return sc
}

// interfere runs an update that a fault interrupts, and goes on with it. It
// reports whether the fault came to pass.
func (w *World) interfere(f *Fault, again bool) (bool, *Violation) {
	if w.f == nil {
		if err := w.open(nil); err != nil {
			w.st.Probe("reports-error")
			return true, nil
		}
	}
	acked := w.syncedN
	ops, wr, err := w.countOps(syncFork)
	if err != nil {
		w.st.Probe("reports-error")
		return true, nil
	}
	died := crashed(func() { err = w.sync(place(f, ops, wr)) })
	if !died && !w.sess.fired {
		return false, nil
	}
	if died || err != nil {
		w.syncedN = acked
	}
	if v := w.fsck(false); v != nil {
		v.Msg = fmt.Sprintf("after %s in a synchronization: %s", f.Kind, v.Msg)
		return true, v
	}
	if !died && again && err != nil {
		// the same process tries again
		if w.sync(nil) != nil {
			w.syncedN = acked
		}
		if v := w.fsck(false); v != nil {
			v.Msg = fmt.Sprintf("after %s in a synchronization that was repeated: %s", f.Kind, v.Msg)
			return true, v
		}
	}
	if died || !again {
		w.f = nil
	}
	return true, nil
}

func (p propC27) Run(sc *Scenario, st *Stats) *Violation {
	if sc.Cfg["tree"] != 0 {
		return p.tree(sc, st)
	}
	w := NewWorld(sc, st)
	clean := true
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		switch o.K {
		case "crash":
			if o.F != nil {
				var yes bool
				yes, v = w.interfere(o.F, o.L&1 != 0)
				clean = clean && !yes
			}
		case "csweep":
			if w.f == nil && w.open(nil) != nil {
				break
			}
			_, wr, err := w.countOps(syncFork)
			if err != nil {
				break
			}
			step := max(wr/max(o.M, 1), 1)
			for at, s0 := o.N%step, st.Steps; at < wr && v == nil && st.Steps-s0 < sweepSteps; at += step {
				c := w.fork()
				if c.open(nil) != nil {
					break
				}
				_, v = c.interfere(&Fault{Kind: o.S, At: at}, at&1 != 0)
				st.Probe("sweep-point")
			}
		default:
			if clean {
				var before *World
				if o.K == "sync" && sc.Cfg["split"] != 0 {
					before = w.fork()
				}
				_, v = w.step(i, o)
				if v == nil && before != nil && len(w.disk.buf) >= len(before.disk.buf)+2*pageLen {
					v = before.splits(func(c *World, f *Fault) *Violation {
						if c.open(nil) != nil {
							return nil
						}
						_, v := c.interfere(f, f.At&1 != 0)
						if v == nil && c.open(nil) == nil && c.sync(nil) == nil {
							v = c.fsck(false)
						}
						return v
					})
				}
				break
			}
			switch o.K {
			case "rec", "flush":
				_, v = w.step(i, o)
			case "reopen", "sync":
				// an index that was interrupted may be refused
				acked := w.syncedN
				if o.K == "reopen" || w.f == nil {
					if w.open(nil) != nil {
						st.Probe("reports-error")
						w.f = nil
						break
					}
				}
				if o.K == "sync" && w.sync(nil) != nil {
					st.Probe("reports-error")
					w.syncedN = acked
				}
			}
		}
		if v == nil && (o.K == "sync" || o.K == "reopen") {
			v = w.fsck(clean)
		}
		if v != nil {
			return at(i, v)
		}
	}
	w.probes()
	return nil
}

func (p propC27) tree(sc *Scenario, st *Stats) *Violation {
	w := &treeWorld{disk: &Disk{style: int(sc.Cfg["style"])}, st: st, width: uint16(sc.Cfg["width"]), data: arena(sc.Cfg["arena"])}
	if err := w.open(); err != nil {
		return viol("open-error", "%v", err)
	}
	clean := true
	examine := func() *Violation { return w.examine(clean) }
	sweeps := 0
	var pending *Fault
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		st.Ops++
		switch o.K {
		case "fault":
			pending = o.F
		case "ins", "dup":
			k, ok := w.key(o)
			if o.K == "dup" {
				if ok = len(w.order) > 0; ok {
					k = w.order[int(o.N)%len(w.order)]
				}
			}
			if !ok {
				break
			}
			if pending == nil && clean {
				before := w.disk.Clone()
				w.sess.Begin(nil)
				v = w.insert(k, o.M)
				// an insertion that changes much is tried again on a copy, with a
				// crash at each of its writes
				if n := w.sess.wr; v == nil && sweeps < 12 && (len(w.disk.buf) >= len(before.buf)+2*pageLen && sc.Cfg["split"] != 0 || n > 7 || n > 2 && freePagesOf(before.buf) >= 2) {
					sweeps++
					v = w.splitSweep(before, k, o.M, n)
				}
				break
			}
			if clean {
				v = examine()
				clean = false
			}
			if v != nil {
				break
			}
			f := pending
			pending = nil
			var err error
			died := crashed(func() { err = w.disturbed(k, o.M, f) })
			if died {
				err = w.open()
				if err != nil {
					v = viol("open-error", "%v", err)
				}
			} else if isPanic(err) {
				v = viol("panic", "Insert: %v", err)
			}
			if v == nil && f != nil {
				v = examine()
			}
		case "reopen":
			if err := w.open(); err != nil {
				v = viol("open-error", "%v", err)
			}
		case "examine":
			v = examine()
		}
		if v != nil {
			return at(i, v)
		}
	}
	st.curTriv = len(w.keys) > 1
	return nil
}

// examine looks at the file of a tree.
func (w *treeWorld) examine(clean bool) *Violation {
	m, err := takeApart(w.disk.buf, func(slot int, meta []byte) (*slotInfo, error) {
		return &slotInfo{name: "keys", width: int(w.width), key: func(off, n uint64) ([]byte, error) {
			if off+n < off || off+n > uint64(len(w.data)) {
				return nil, fmt.Errorf("%d bytes at %d are not in the data", n, off)
			}
			return w.data[off : off+n], nil
		}}, nil
	})
	if err != nil {
		return viol("malformed-file", "the file of a tree of width %d and %d keys: %v", w.width, len(w.keys), err)
	}
	w.st.Probe("examined")
	if m.depth > 1 {
		w.st.Probe("examined-deep-tree")
	}
	if clean {
		if n, yes := m.lost(); yes {
			return viol("lost-page", "page %d of the %d pages of a tree of width %d and %d keys is neither used nor free", n, len(w.disk.buf)/pageLen, w.width, len(w.keys))
		}
		if n := len(w.keys); n > 0 && (len(m.trees) != 1 || m.trees[0].keys != n) {
			return viol("wrong-count", "the file holds %+v, expected %d keys", m.trees, n)
		}
	}
	return nil
}

// freePagesOf is the number of entries of the list of free pages.
func freePagesOf(buf []byte) int {
	n := 0
	for ; len(buf) >= pageLen && n < pageLen/8 && binary.LittleEndian.Uint64(buf[n*8:]) != 0; n++ {
	}
	return n
}

// splitSweep inserts a key into a copy of a disk, again and again, with a crash
// at each of the writes of the insertion.
func (w *treeWorld) splitSweep(before *Disk, key pointer.ReferencedValue, m int64, writes int64) *Violation {
	w.st.Probe("split-swept")
	for at := int64(0); at < writes; at++ {
		c := &treeWorld{disk: before.Clone(), st: w.st, width: w.width, data: w.data, keys: w.keys}
		if err := c.open(); err != nil {
			return viol("open-error", "%v", err)
		}
		var err error
		crashed(func() {
			c.sess.Begin(&Fault{Kind: "crash", At: at})
			err = try(func() error { return c.tree.Insert(key, pointer.MemoryPointer{Offset: uint64(m)}) })
		})
		for _, what := range []string{"", " that was repeated"} {
			if v := c.examine(false); v != nil {
				v.Msg = fmt.Sprintf("after a crash at write %d of %d of an insertion%s: %s", at, writes, what, v.Msg)
				return v
			}
			if err := c.open(); err != nil {
				return viol("open-error", "%v", err)
			}
			c.sess.Begin(nil)
			err = try(func() error { return c.tree.Insert(key, pointer.MemoryPointer{Offset: uint64(m)}) })
			if isPanic(err) {
				return viol("panic", "Insert after a crash: %v", err)
			}
		}
		w.st.Probe("sweep-point")
	}
	return nil
}

// disturbed inserts a key while a fault may strike.
func (w *treeWorld) disturbed(key pointer.ReferencedValue, m int64, f *Fault) error {
	if f != nil {
		g := *f
		switch g.Kind {
		case "werr", "full", "crash":
			g.At %= 7
		default:
			g.At %= 40
		}
		f = &g
	}
	w.sess.Begin(f)
	defer w.sess.End()
	return try(func() error {
		return w.tree.Insert(key, pointer.MemoryPointer{Offset: uint64(m), Length: uint32(m % 100003)})
	})
}

// genSplits is a history in which single records make trees grow.
func genSplits(r *Rng, prop string) *Scenario {
	sc := &Scenario{Prop: prop, Cfg: map[string]int64{"split": 1, "style": int64(r.N(2))}}
	csv := r.P(0.3)
	kind := pick(r, []string{"n", "n", "b", "s"})
	var first int
	if csv {
		sc.Cfg["csv"] = 1
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: &Rec{CSV: true, Header: true, Cells: []*Cell{{V: "a", Raw: "a"}}}})
		first = r.In(340, 420)
	} else {
		first = map[string]int{"n": r.In(190, 240), "b": r.In(330, 400), "s": r.In(340, 420)}[kind]
	}
	g := &docGen{r: r, csv: csv}
	rec := func() *Rec {
		if csv {
			v := map[string]string{"n": strconv.Itoa(r.N(1000)), "b": "true", "s": "x" + strconv.Itoa(r.N(30))}[kind]
			return &Rec{CSV: true, Cells: []*Cell{{V: v, Raw: v}}}
		}
		f := &Fld{Key: "a", KR: `"a"`, Kind: kind}
		switch kind {
		case "n":
			f.Raw = strconv.Itoa(r.N(1000))
		case "b":
			f.Raw = pick(r, []string{"true", "false"})
		case "s":
			f.Str = "x" + strconv.Itoa(r.N(30))
			f.Raw = g.jsonString(f.Str)
		}
		return &Rec{F: []*Fld{f}}
	}
	for i := 0; i < first; i++ {
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: rec()})
	}
	sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sync"})
	for i, n := 0, r.In(60, 180); i < n; i++ {
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: rec()}, Op{K: "flush", M: 1}, Op{K: "sync"})
	}
	return sc
}

// genFields is a history that ends with a synchronization that creates a few
// indexes besides many others, swept densely.
func genFields(r *Rng, prop string) *Scenario {
	sc := &Scenario{Prop: prop, Cfg: map[string]int64{"style": int64(r.N(2))}}
	g := &docGen{r: r}
	next := 0
	fld := func(key string, kind string) *Fld {
		f := &Fld{Key: key, KR: g.jsonString(key), Kind: kind}
		switch kind {
		case "n":
			f.Raw = strconv.Itoa(r.N(1000))
		case "b":
			f.Raw = pick(r, []string{"true", "false"})
		case "z":
			f.Raw = "null"
		case "s":
			f.Str = "x" + strconv.Itoa(r.N(30))
			f.Raw = g.jsonString(f.Str)
		}
		return f
	}
	fresh := func() *Fld {
		next++
		return fld("f"+strconv.Itoa(next), pick(r, []string{"n", "b", "s", "z"}))
	}
	// the file has a slot of its own
	n := pick(r, []int{0, 1, 13, 14, 14, 15, 28, 29, 29, 30, r.N(40)})
	for left := n; left > 0; {
		rec := &Rec{}
		for k := r.In(1, 10); k > 0 && left > 0; k-- {
			rec.F = append(rec.F, fresh())
			left--
		}
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: rec})
	}
	sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sync"})
	rec := &Rec{F: []*Fld{fresh()}}
	for k := r.N(3); k > 0; k-- {
		if next > 1 && r.P(0.4) {
			// another type for a field there is
			rec.F = append(rec.F, fld("f"+strconv.Itoa(r.In(1, next)), pick(r, []string{"n", "b", "s", "z"})))
		} else {
			rec.F = append(rec.F, fresh())
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "rec", Rec: rec}, Op{K: "flush", M: 1})
	return sc
}

// splits tries a synchronization on copies of a world, with a fault at each of
// its writes.
func (w *World) splits(try func(c *World, f *Fault) *Violation) *Violation {
	_, wr, err := w.countOps(syncFork)
	if err != nil || wr > 40 {
		return nil // not a single record
	}
	w.st.Probe("split-swept")
	for _, kind := range []string{"crash", "full"} {
		for at, s0 := int64(0), w.st.Steps; at < wr && w.st.Steps-s0 < sweepSteps; at++ {
			if v := try(w.fork(), &Fault{Kind: kind, At: at}); v != nil {
				return v
			}
			w.st.Probe("sweep-point")
		}
	}
	return nil
}
