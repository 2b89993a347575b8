package main

import (
	"bytes"
	"fmt"
	"os"
	"sync"
	"syscall"

	"github.com/kevmo314/appendable/pkg/appendable"
)

type placed struct {
	rec  *Rec
	off  int // relative to the beginning of the stream
	len  int // without newline
	text string
}

// World is an appender writing a data file, an indexer keeping an index of it on
// a simulated disk, and the account of what the index has to contain.
type World struct {
	sc      *Scenario
	st      *Stats
	csv     bool
	search  []string
	smap    map[string]bool
	headers []string

	recs   []*placed
	stream []byte // everything the appender has written or is going to write
	vis    int    // how much of it has reached the data file
	base   uint64 // offset of the stream in the data file

	disk *Disk
	sess *Sess
	f    *appendable.IndexFile

	// syncedN is the number of records covered by the last successful
	// synchronization.
	syncedN int
	pubs    []published
}

type published struct {
	buf   []byte
	model *Model
}

const bigBase = uint64(5)<<30 + 12345

// bigCount is the number of records before bigBase.
const bigCount = uint64(7)<<31 + 54321

var bigOnce sync.Once
var bigMap []byte

// bigFile is a sparse data file of more than 4 GiB.
func bigFile() []byte {
	bigOnce.Do(func() {
		b, err := syscall.Mmap(-1, 0, int(bigBase)+(64<<20), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot reserve address space:", err)
			os.Exit(3)
		}
		bigMap = b
	})
	return bigMap
}

func NewWorld(sc *Scenario, st *Stats) *World {
	w := &World{sc: sc, st: st, csv: sc.Cfg["csv"] != 0, search: sc.Strs, smap: map[string]bool{}}
	for _, s := range sc.Strs {
		w.smap[s] = true
	}
	w.disk = &Disk{style: int(sc.Cfg["style"]), gap: sc.Cfg["gap"]}
	w.sess = w.newSess()
	if sc.Cfg["base"] != 0 && !w.csv {
		w.base = bigBase
	}
	return w
}

func (w *World) newSess() *Sess {
	s := NewSess(w.disk, w.st)
	if w.sc.Cfg["short"] != 0 {
		s.short = uint64(w.sc.Cfg["short"])
	}
	return s
}

func (w *World) add(r *Rec) {
	if r.Header != (w.csv && len(w.recs) == 0) || r.CSV != w.csv {
		return
	}
	if r.Header {
		for _, c := range r.Cells {
			w.headers = append(w.headers, c.V)
		}
	}
	t := r.Render(w.headers, w.smap, func(Entry) {}, func(indexKey, uint64) {})
	w.recs = append(w.recs, &placed{r, len(w.stream), len(t), t})
	w.stream = append(w.stream, t...)
	w.stream = append(w.stream, '\n')
	w.st.Ops++
}

func (w *World) flush(n int64, all bool) {
	if all || int(n) > len(w.stream)-w.vis {
		w.vis = len(w.stream)
	} else {
		w.vis += int(n)
		if w.vis > 0 && w.stream[w.vis-1] != '\n' {
			w.st.Probe("torn-tail")
		}
	}
}

// df is the data file as the indexer sees it.
func (w *World) df() []byte { return w.dfAt(w.vis) }

func (w *World) dfAt(vis int) []byte {
	if w.base == 0 {
		return w.stream[:vis:vis]
	}
	b := bigFile()
	copy(b[w.base:], w.stream[:vis])
	return b[: w.base+uint64(vis) : w.base+uint64(vis)]
}

// firstBad is the number of records before the first malformed one.
func (w *World) firstBad() int {
	for i, p := range w.recs {
		if p.rec.IsBad {
			return i
		}
	}
	return len(w.recs)
}

// complete is the number of records whose newline has reached the data file.
func (w *World) complete() int {
	n := 0
	for _, p := range w.recs {
		if p.off+p.len+1 > w.vis {
			break
		}
		n++
	}
	return n
}

// model is what the first n records amount to.
func (w *World) model(n int) *Model {
	m := NewModel()
	m.CSV = w.csv
	m.Read = w.base
	if w.base != 0 {
		m.Count = bigCount
	}
	for i, p := range w.recs[:n] {
		base := w.base + uint64(p.off)
		ps := p
		p.rec.Render(w.headers, w.smap, func(e Entry) {
			if gramSize[e.Type] == 0 {
				e.Off += base
			}
			e.ROff, e.RLen = base, uint64(ps.len)
			k := indexKey{e.Field, e.Type}
			m.Entries[k] = append(m.Entries[k], e)
		}, func(k indexKey, n uint64) { m.Total[k] += n })
		m.Read = base + uint64(p.len) + 1
		if i > 0 || !w.csv {
			m.Count++
		}
	}
	return m
}

// indexable is the number of records a synchronization has to index now.
func (w *World) indexable() int {
	n, b := w.complete(), w.firstBad()
	if b < n {
		return b
	}
	return n
}

// open starts an indexer process on the disk.
func (w *World) open(f *Fault) error {
	w.sess = w.newSess()
	w.f = nil
	w.sess.Begin(f)
	defer w.sess.End()
	return try(func() error {
		x, err := appendable.NewIndexFile(w.sess.Handle(), handlerFor(w.csv), w.search)
		if err != nil {
			return err
		}
		w.f = x
		if w.base != 0 {
			m, err := x.Metadata()
			if err != nil {
				return err
			}
			if m.ReadOffset < w.base {
				m.ReadOffset, m.Entries = w.base, bigCount
				return x.SetMetadata(m)
			}
		}
		return nil
	})
}

// sync runs a synchronization in the current process.
func (w *World) sync(f *Fault) error {
	w.sess.Begin(f)
	defer w.sess.End()
	w.st.Ops++
	err := try(func() error { return w.f.Synchronize(w.df()) })
	if err == nil {
		w.syncedN = w.complete()
	}
	return err
}

// read reads the whole index in a new process.
func (w *World) read(d *Disk, df []byte) (*Logical, error) {
	s := NewSess(d, w.st)
	if w.sc.Cfg["short"] != 0 {
		s.short = uint64(w.sc.Cfg["short"])
	}
	var l *Logical
	err := try(func() error {
		x, err := appendable.NewIndexFile(s.Handle(), handlerFor(w.csv), w.search)
		if err != nil {
			return err
		}
		l, err = readIndex(x, df, w.csv)
		return err
	})
	return l, err
}

// readCurrent reads the whole index through the current process.
func (w *World) readCurrent() (*Logical, error) {
	w.sess.Begin(nil)
	var l *Logical
	err := try(func() (err error) {
		l, err = readIndex(w.f, w.df(), w.csv)
		return err
	})
	return l, err
}

// check compares the index with the model of the first n records.
func (w *World) check(n int, reopen bool) *Violation {
	var l *Logical
	var err error
	if reopen {
		d := w.disk.Clone()
		l, err = w.read(d, w.df())
		if err == nil && !bytes.Equal(d.buf, w.disk.buf) {
			return viol("read-modifies", "opening and reading the index modified it")
		}
	} else {
		l, err = w.readCurrent()
	}
	if err != nil {
		return viol("read-error", "reading the index: %v", err)
	}
	return compare(l, w.model(n), compareOpts{})
}

func (w *World) probe(seed uint64, n int) *Violation {
	l, err := w.readCurrent()
	if err != nil {
		return viol("read-error", "reading the index: %v", err)
	}
	var v *Violation
	err = try(func() error {
		v = probeLookups(l, w.df(), w.csv, seed, n)
		return nil
	})
	if err != nil {
		return viol("lookup-error", "%v", err)
	}
	return v
}

// repair replaces the first malformed record by r.
func (w *World) repair(r *Rec) bool {
	i := w.firstBad()
	if i == len(w.recs) || r.IsBad || r.CSV != w.csv || r.Header {
		return false
	}
	visAll := w.vis == len(w.stream)
	p := w.recs[i]
	// how far past the malformed record the appender got
	tail := append([]byte(nil), w.stream[p.off+p.len:]...)
	past := w.vis - (p.off + p.len)
	t := r.Render(w.headers, w.smap, func(Entry) {}, func(indexKey, uint64) {})
	w.stream = append(w.stream[:p.off:p.off], t...)
	w.stream = append(w.stream, tail...)
	p.rec, p.text = r, t
	d := len(t) - p.len
	p.len = len(t)
	for _, q := range w.recs[i+1:] {
		q.off += d
	}
	if visAll {
		w.vis = len(w.stream)
	} else if past >= 0 {
		w.vis = p.off + p.len + past
	} else {
		// the malformed line was not even complete; the repair writes it whole
		w.vis = p.off + p.len + 1
	}
	return true
}

// genDocs appends record, flush and other operations to a scenario.
type docOpts struct {
	csv      int // 0 jsonl, 1 csv, -1 either
	syncP    float64
	reopenP  float64
	checkP   float64
	probeP   float64
	noBase   bool
	maxRecs  int
	flushAll float64
	extra    func(r *Rng, g *docGen) []Op
	extraP   float64
}

func genDocs(r *Rng, big bool, prop string, o docOpts) *Scenario {
	csv := o.csv == 1 || o.csv == -1 && r.P(0.3)
	g := newDocGen(r, csv)
	sc := &Scenario{Prop: prop, Cfg: map[string]int64{}}
	sc.Cfg["style"] = int64(r.N(2))
	if csv {
		sc.Cfg["csv"] = 1
	}
	if !csv && !o.noBase && r.P(0.06) {
		sc.Cfg["base"] = 1
	}
	if r.P(0.1) {
		sc.Cfg["short"] = int64(r.N(1<<30)) + 1
	}
	sc.Strs = g.search
	n := r.Skew(40) + 1
	switch {
	case r.P(0.15):
		n = r.In(40, 200)
	case r.P(0.06):
		n = r.In(200, 700)
		if big {
			n = r.In(200, 2500)
		}
	}
	if o.maxRecs > 0 && n > o.maxRecs {
		n = r.In(1, o.maxRecs)
	}
	// once in a while thousands of small records in one synchronization
	many := r.P(0.005) && (o.maxRecs == 0 || o.maxRecs >= 400)
	if many {
		n = 1025 + r.Skew(1500)
		g.deep = false
		g.maxF, g.strLen = 1, 8
	}
	if g.deep && n > 25 {
		n = r.In(1, 25)
	}
	if n > 200 {
		// long histories have to stay affordable
		g.maxF = min(g.maxF, 3)
		g.strLen = min(g.strLen, 40)
		o.checkP /= 10
		o.syncP = min(o.syncP, 0.2)
	}
	if csv {
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: g.HeaderRec()})
		if r.P(0.4) {
			sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sync"})
			if r.P(0.5) {
				sc.Ops = append(sc.Ops, Op{K: "reopen"})
			}
		}
	}
	syncP := o.syncP
	if r.P(0.2) {
		syncP = 1
	} else if r.P(0.2) {
		syncP = 0.05
	}
	if many {
		syncP, o.reopenP, o.extraP = r.F()*0.001, 0, 0
	}
	for i := 0; i < n; i++ {
		sc.Ops = append(sc.Ops, Op{K: "rec", Rec: g.Rec()})
		if r.P(syncP) {
			if r.P(o.flushAll) {
				sc.Ops = append(sc.Ops, Op{K: "flush", M: 1})
			} else {
				sc.Ops = append(sc.Ops, Op{K: "flush", N: int64(r.Skew(400))})
			}
			sc.Ops = append(sc.Ops, Op{K: "sync"})
			if r.P(0.1) {
				sc.Ops = append(sc.Ops, Op{K: "sync"})
			}
			if r.P(o.checkP) {
				sc.Ops = append(sc.Ops, Op{K: "check", N: int64(r.N(2))})
			}
			if r.P(o.probeP) {
				sc.Ops = append(sc.Ops, Op{K: "probe", N: int64(r.N(1 << 30)), M: int64(r.In(1, 10))})
			}
		}
		if r.P(o.reopenP) {
			sc.Ops = append(sc.Ops, Op{K: "reopen"})
		}
		if o.extra != nil && r.P(o.extraP) {
			sc.Ops = append(sc.Ops, o.extra(r, g)...)
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "flush", M: 1}, Op{K: "sync"}, Op{K: "check", N: 1}, Op{K: "probe", N: int64(r.N(1 << 30)), M: 20})
	return sc
}

// step executes the operations every document world knows. It reports whether it
// knew the operation.
func (w *World) step(i int, o *Op) (bool, *Violation) {
	switch o.K {
	case "rec":
		if o.Rec != nil && !o.Rec.IsBad {
			w.add(o.Rec)
		}
	case "flush":
		w.flush(o.N, o.M != 0)
	case "reopen":
		if err := w.open(nil); err != nil {
			return true, viol("open-error", "reopening: %v", err)
		}
		w.st.Probe("reopen")
	case "sync":
		if w.f == nil {
			if err := w.open(nil); err != nil {
				return true, viol("open-error", "opening: %v", err)
			}
		}
		if err := w.sync(nil); err != nil {
			return true, viol("sync-error", "synchronize: %v", err)
		}
	case "check":
		if w.f == nil {
			return true, nil
		}
		return true, w.check(w.syncedN, o.N != 0)
	case "probe":
		if w.f == nil {
			return true, nil
		}
		return true, w.probe(uint64(o.N), int(o.M))
	default:
		return false, nil
	}
	return true, nil
}
