package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/mmap"
	"golang.org/x/sys/unix"
)

// scratch makes a directory of its own for a run.
func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "verif-os-")
	if err != nil {
		harness("cannot make a scratch directory: %v", err)
	}
	return d, func() { os.RemoveAll(d) }
}

// harness reports trouble that is not the code's.
func harness(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(3)
}

// withLimit runs f under a resource limit of this process.
func withLimit(res int, n uint64, f func()) {
	var old unix.Rlimit
	if err := unix.Getrlimit(res, &old); err != nil {
		harness("getrlimit: %v", err)
	}
	l := old
	if n < l.Max {
		l.Cur = n
	}
	if err := unix.Setrlimit(res, &l); err != nil {
		harness("setrlimit: %v", err)
	}
	defer func() {
		if err := unix.Setrlimit(res, &old); err != nil {
			harness("setrlimit back: %v", err)
		}
	}()
	f()
}

// ---------------------------------------------------------------- C10

type propC10 struct{}

func (p propC10) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Cfg: map[string]int64{}}
	sc.Cfg["init"] = int64(pick(r, []int{0, 0, 1, 100, 4095, 4096, 4097, 10000, 40000}))
	sc.Cfg["seed"] = int64(r.N(1 << 30))
	if r.P(0.01) {
		genBigMap(r, sc)
		return sc
	}
	n := r.Skew(80) + 3
	faults := r.P(0.6)
	sizes := []int{1, 3, 10, 100, 511, 4095, 4096, 4097, 9000}
	size := func() int64 {
		if r.P(0.03) {
			return int64(r.N(200000))
		}
		if r.P(0.05) {
			return 0
		}
		return int64(r.N(pick(r, sizes)) + 1)
	}
	where := func(o *Op) {
		// L: 0 anywhere inside, 1 at the end, 2 across the end, 3 beyond it, 4 anything
		o.L = int64(r.Weighted([]int{50, 25, 15, 6, 1}))
		o.N = int64(r.N(1 << 20))
	}
	for i := 0; i < n; i++ {
		var o Op
		switch r.Weighted([]int{20, 20, 15, 15, 15, 4, 4, 4}) {
		case 0:
			o = Op{K: "write", M: size()}
		case 1:
			o = Op{K: "writeat", M: size()}
			where(&o)
		case 2:
			o = Op{K: "read", M: size()}
		case 3:
			o = Op{K: "readat", M: size()}
			where(&o)
		case 4:
			o = Op{K: "seek", M: int64(r.N(3))}
			where(&o)
		case 5:
			o = Op{K: "reopen", M: int64(r.Weighted([]int{8, 2, 1}))}
		case 6:
			o = Op{K: "other", M: size()}
			where(&o)
		case 7:
			o = Op{K: "bytes"}
		}
		if faults && (o.K == "write" || o.K == "writeat") && r.P(0.3) {
			o.F = &Fault{Kind: pick(r, []string{"fsize", "fsize", "fsize", "closed", "remap"}), Arg: int64(r.Skew(int(o.M) + 2))}
			if o.F.Kind == "remap" {
				o.L = 1
			}
		}
		sc.Ops = append(sc.Ops, o)
	}
	sc.Ops = append(sc.Ops, Op{K: "reopen"})
	return sc
}

type mmapWorld struct {
	sc   *Scenario
	st   *Stats
	path string
	m    *mmap.MemoryMappedFile
	ext  *os.File
	c    []byte // contents of the file
	l    int64  // how much of it the map shows
	pos  int64
	ro   bool
	gone bool // the descriptor was closed
	n    uint64
}

func (w *mmapWorld) open(ro bool, plain bool) *Violation {
	var err error
	var m *mmap.MemoryMappedFile
	err = try(func() (err error) {
		switch {
		case ro:
			m, err = mmap.OpenFile(w.path, os.O_RDONLY, 0)
		case plain:
			m, err = mmap.Open(w.path)
		default:
			m, err = mmap.OpenFile(w.path, os.O_RDWR|os.O_CREATE, 0o666)
		}
		return err
	})
	if err != nil {
		return viol("open-error", "opening a file of %d bytes: %v", len(w.c), err)
	}
	w.m, w.ro, w.pos, w.gone = m, ro, 0, false
	return w.look("after opening")
}

func (w *mmapWorld) onDisk() []byte {
	b, err := os.ReadFile(w.path)
	if err != nil {
		harness("reading the scratch file: %v", err)
	}
	return b
}

// look compares the map and the file with what they have to be.
func (w *mmapWorld) look(what string) *Violation {
	if b := w.onDisk(); !bytes.Equal(b, w.c) {
		return viol("file-content", "%s: the file has %d bytes, expected %d, first difference at %d", what, len(b), len(w.c), firstDiff(b, w.c))
	}
	b := w.m.Bytes()
	if int64(len(b)) < w.l || len(b) > len(w.c) {
		return viol("map-size", "%s: the map has %d bytes, expected %d of %d", what, len(b), w.l, len(w.c))
	}
	w.l = int64(len(b))
	if !bytes.Equal(b, w.c[:w.l]) {
		return viol("map-content", "%s: the map differs from the file at %d", what, firstDiff(b, w.c))
	}
	return nil
}

func (w *mmapWorld) place(o *Op) int64 {
	switch o.L {
	case 0:
		if w.l == 0 {
			return 0
		}
		return o.N % w.l
	case 1:
		return w.l
	case 2:
		return max(0, w.l-o.N%max(o.M, 1))
	case 3:
		return w.l + o.N%20000
	}
	return o.N - 1<<19
}

func (w *mmapWorld) data(n int64) []byte {
	w.n++
	b := make([]byte, n)
	r := NewRng(uint64(w.sc.Cfg["seed"]) ^ w.n<<32)
	for i := range b {
		b[i] = byte(r.U64() | 1)
	}
	return b
}

func (w *mmapWorld) read(o *Op, positioned bool) *Violation {
	off := w.pos
	if positioned {
		off = w.place(o)
	}
	buf := bytes.Repeat([]byte{0xaa}, int(o.M))
	var n int
	err := try(func() (err error) {
		if positioned {
			n, err = w.m.ReadAt(buf, off)
		} else {
			n, err = w.m.Read(buf)
		}
		return err
	})
	if isPanic(err) {
		return viol("panic", "reading %d bytes at %d of %d: %v", o.M, off, w.l, err)
	}
	if off < 0 {
		if err == nil {
			return viol("negative-offset", "reading at %d succeeded", off)
		}
		return nil
	}
	avail := max(0, w.l-off)
	want := min(avail, o.M)
	if int64(n) != want {
		return viol("read-count", "reading %d bytes at %d of %d returned %d, %v", o.M, off, w.l, n, err)
	}
	if want > 0 && !bytes.Equal(buf[:n], w.c[off:off+want]) {
		return viol("read-content", "reading %d bytes at %d returned wrong bytes, first at %d", o.M, off, off+int64(firstDiff(buf[:n], w.c[off:off+want])))
	}
	if err != nil && (err != io.EOF || avail > o.M) {
		return viol("read-error", "reading %d bytes at %d of %d: %v", o.M, off, w.l, err)
	}
	if want < o.M && positioned && err == nil {
		return viol("read-error", "reading %d bytes at %d of %d returned %d bytes and no error", o.M, off, w.l, n)
	}
	if o.M > 0 && want == 0 && err == nil {
		return viol("read-error", "reading at the end returned no error")
	}
	if !positioned {
		w.pos += want
	}
	return nil
}

func (w *mmapWorld) write(o *Op, positioned bool) *Violation {
	off := w.pos
	if positioned {
		off = w.place(o)
	}
	b := w.data(o.M)
	kind := ""
	if o.F != nil {
		kind = o.F.Kind
	}
	if kind == "closed" && !w.gone {
		w.m.File().Close()
		w.gone = true
		w.st.Fault("closed-descriptor")
	}
	var hole int64
	if kind == "remap" {
		if positioned {
			hole = 1 << 30
			off = w.l + hole
		} else {
			kind = ""
		}
	}
	end := off + int64(len(b))
	var n int
	do := func() error {
		return try(func() (err error) {
			if positioned {
				n, err = w.m.WriteAt(b, off)
			} else {
				n, err = w.m.Write(b)
			}
			return err
		})
	}
	var err error
	switch kind {
	case "fsize":
		withLimit(unix.RLIMIT_FSIZE, uint64(int64(len(w.c))+o.F.Arg), func() { err = do() })
		if end > int64(len(w.c))+o.F.Arg {
			w.st.Fault("file-size-limit")
		}
	case "remap":
		s, e := os.ReadFile("/proc/self/statm")
		if e != nil {
			harness("statm: %v", e)
		}
		pages, e := strconv.ParseUint(strings.Fields(string(s))[0], 10, 64)
		if e != nil {
			harness("statm: %v", e)
		}
		withLimit(unix.RLIMIT_AS, pages*4096+256<<20, func() { err = do() })
		w.st.Fault("remap-out-of-memory")
	default:
		err = do()
	}
	what := fmt.Sprintf("writing %d bytes at %d of %d (%s)", len(b), off, w.l, kind)
	if isPanic(err) {
		return viol("panic", "%s: %v", what, err)
	}
	if off < 0 {
		if err == nil {
			return viol("negative-offset", "%s succeeded", what)
		}
		return w.look(what)
	}
	if w.ro {
		if err == nil && len(b) > 0 {
			return viol("read-only", "%s succeeded on a read-only file", what)
		}
		w.st.Fault("read-only-descriptor")
		return w.look(what)
	}
	if kind == "remap" {
		// whatever happened far away, what was there before is still there
		old := int64(len(w.c))
		f, e := os.Open(w.path)
		if e != nil {
			harness("%v", e)
		}
		got := make([]byte, old)
		if _, e := io.ReadFull(f, got); e != nil && old > 0 {
			f.Close()
			return viol("file-content", "%s: the file shrank: %v", what, e)
		}
		if !bytes.Equal(got, w.c) {
			f.Close()
			return viol("file-content", "%s changed the file at %d", what, firstDiff(got, w.c))
		}
		if err == nil {
			far := make([]byte, len(b))
			_, e := f.ReadAt(far, off)
			f.Close()
			if len(b) > 0 && (e != nil || !bytes.Equal(far, b)) {
				return viol("acked-write-lost", "%s was acknowledged but is not in the file", what)
			}
			if len(b) > 0 {
				clear(far)
				k, e2 := 0, error(nil)
				if e := try(func() error { k, e2 = w.m.ReadAt(far, off); return nil }); e != nil {
					return viol("panic", "%s: reading it back: %v", what, e)
				}
				if k != len(b) || !bytes.Equal(far, b) {
					return viol("acked-write-invisible", "%s was acknowledged but the map does not show it: %v", what, e2)
				}
			}
			if e := w.m.Close(); e != nil && !w.gone {
				return viol("close-error", "%v", e)
			}
			if e := os.Truncate(w.path, old); e != nil {
				harness("%v", e)
			}
			w.st.Probe("remap-succeeded")
			return w.open(false, false)
		}
		f.Close()
		w.st.Probe("remap-failed")
		// the map has to go on showing the same bytes
		mb := w.m.Bytes()
		if int64(len(mb)) < w.l {
			return viol("map-size", "%s failed and left a map of %d bytes", what, len(mb))
		}
		var v *Violation
		if e := try(func() error {
			if !bytes.Equal(mb[:w.l], w.c[:w.l]) {
				v = viol("map-content", "%s failed and changed the map at %d", what, firstDiff(mb[:w.l], w.c[:w.l]))
			}
			return nil
		}); e != nil {
			return viol("panic", "%s failed; reading the map: %v", what, e)
		}
		if v != nil {
			return v
		}
		if int64(len(mb)) > w.l {
			// the growth happened although it reported an error
			if e := w.m.Close(); e != nil && !w.gone {
				return viol("close-error", "%v", e)
			}
			if e := os.Truncate(w.path, old); e != nil {
				harness("%v", e)
			}
			return w.open(false, false)
		}
		if e := os.Truncate(w.path, old); e != nil {
			harness("%v", e)
		}
		return w.look(what)
	}
	mayFail := w.gone && end > w.l || kind == "fsize" && end > int64(len(w.c))+o.F.Arg
	if err == nil {
		if n != len(b) {
			return viol("write-count", "%s returned %d and no error", what, n)
		}
		if len(b) > 0 {
			if end > int64(len(w.c)) {
				w.st.Probe("growth")
				w.c = append(w.c, make([]byte, end-int64(len(w.c)))...)
			}
			copy(w.c[off:], b)
			w.l = max(w.l, end)
		}
		if !positioned {
			w.pos = end
		}
		// the separate descriptor sees it
		got := make([]byte, len(b))
		if _, e := w.ext.ReadAt(got, off); len(b) > 0 && (e != nil || !bytes.Equal(got, b)) {
			return viol("acked-write-invisible", "%s was acknowledged but another descriptor does not see it: %v", what, e)
		}
		return w.look(what)
	}
	if !mayFail {
		return viol("write-error", "%s: %v", what, err)
	}
	w.st.Probe("growth-failed")
	if n > len(b) || n < 0 {
		return viol("write-count", "%s returned %d, %v", what, n, err)
	}
	now := w.onDisk()
	if len(now) < len(w.c) {
		return viol("file-content", "%s failed and shrank the file from %d to %d", what, len(w.c), len(now))
	}
	if int64(len(now)) > max(end, int64(len(w.c))) {
		return viol("file-content", "%s failed and grew the file to %d", what, len(now))
	}
	for i := range now {
		k := int64(i)
		old := byte(0)
		if i < len(w.c) {
			old = w.c[i]
		}
		in := k >= off && k < end
		if now[i] != old && !(in && now[i] == b[k-off]) {
			return viol("file-content", "%s failed and left a wrong byte at %d", what, i)
		}
	}
	w.c = now
	if !positioned {
		// a failed write moves the position by what it says it wrote, or not at all
		var p int64
		if e := try(func() (err error) { p, err = w.m.Seek(0, io.SeekCurrent); return err }); e != nil {
			return viol("seek-error", "after a failed write: %v", e)
		}
		if p != w.pos && p != w.pos+int64(n) {
			return viol("position", "%s failed with %d written and moved the position from %d to %d", what, n, w.pos, p)
		}
		w.pos = p
	}
	return w.look(what)
}

func (w *mmapWorld) seek(o *Op) *Violation {
	abs := w.place(o)
	off := abs
	switch o.M {
	case io.SeekCurrent:
		off = abs - w.pos
	case io.SeekEnd:
		off = abs - w.l
	}
	var p int64
	err := try(func() (err error) { p, err = w.m.Seek(off, int(o.M)); return err })
	if isPanic(err) {
		return viol("panic", "Seek(%d, %d): %v", off, o.M, err)
	}
	if err != nil {
		if abs >= 0 && abs <= w.l {
			return viol("seek-error", "Seek(%d, %d) in a file of %d: %v", off, o.M, w.l, err)
		}
		if e := try(func() (err error) { p, err = w.m.Seek(0, io.SeekCurrent); return err }); e != nil || p != w.pos {
			return viol("position", "a refused seek moved the position from %d to %d: %v", w.pos, p, e)
		}
		return nil
	}
	if abs < 0 || p != abs {
		return viol("position", "Seek(%d, %d) from %d in a file of %d gave %d", off, o.M, w.pos, w.l, p)
	}
	if abs > w.l {
		// an ordinary file allows it; go back
		if e := try(func() (err error) { _, err = w.m.Seek(w.pos, io.SeekStart); return err }); e != nil {
			return viol("seek-error", "seeking back to %d: %v", w.pos, e)
		}
		return nil
	}
	w.pos = abs
	return nil
}

func (p propC10) Run(sc *Scenario, st *Stats) *Violation {
	if sc.Cfg["big"] != 0 {
		return p.runBig(sc, st)
	}
	dir, done := scratch()
	defer done()
	w := &mmapWorld{sc: sc, st: st, path: filepath.Join(dir, "f")}
	w.c = w.data(sc.Cfg["init"])
	if len(w.c) > 0 {
		if err := os.WriteFile(w.path, w.c, 0o666); err != nil {
			harness("%v", err)
		}
	} else if f, err := os.Create(w.path); err != nil {
		harness("%v", err)
	} else {
		f.Close()
	}
	ext, err := os.OpenFile(w.path, os.O_RDWR, 0)
	if err != nil {
		harness("%v", err)
	}
	defer ext.Close()
	w.ext = ext
	defer func() {
		if w.m != nil {
			try(func() error { return w.m.Close() })
		}
	}()
	if v := w.open(false, false); v != nil {
		return v
	}
	grown := 0
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		st.Steps++
		var v *Violation
		switch o.K {
		case "write":
			v = w.write(o, false)
		case "writeat":
			v = w.write(o, true)
		case "read":
			v = w.read(o, false)
		case "readat":
			v = w.read(o, true)
		case "seek":
			v = w.seek(o)
		case "other":
			// another process changes bytes that exist
			off := w.place(o)
			if off >= 0 && off+o.M <= w.l && o.M > 0 {
				b := w.data(o.M)
				if _, err := w.ext.WriteAt(b, off); err != nil {
					harness("%v", err)
				}
				copy(w.c[off:], b)
				st.Probe("foreign-write")
				v = w.look("after another descriptor wrote")
			}
		case "bytes":
			v = w.look("later")
		case "reopen":
			if err := try(func() error { return w.m.Close() }); err != nil && !w.gone {
				v = viol("close-error", "%v", err)
				break
			}
			if b := w.onDisk(); !bytes.Equal(b, w.c) {
				v = viol("file-content", "after closing, the file has %d bytes, expected %d, first difference at %d", len(b), len(w.c), firstDiff(b, w.c))
				break
			}
			w.l = int64(len(w.c))
			v = w.open(o.M == 1, o.M == 2)
			st.Probe("reopen")
		}
		if v != nil {
			w.m = nil // it may not be safe to touch it any more
			return at(i, v)
		}
		if len(w.c) > grown {
			grown = len(w.c)
		}
		st.hash.Add(uint64(len(w.c))<<32 ^ uint64(w.pos)<<8 ^ uint64(o.M)<<3 ^ uint64(o.L))
		st.hash.Str(o.K)
	}
	st.hash.Bytes(w.c)
	st.curTriv = grown > 0 && len(sc.Ops) > 2
	return nil
}

// mmapHistory runs a document history on a real memory-mapped file.
func mmapHistory(sc *Scenario, st *Stats) ([]byte, *Violation) {
	dir, done := scratch()
	defer done()
	path := filepath.Join(dir, "index")
	w := NewWorld(sc, st)
	var m *mmap.MemoryMappedFile
	var x *appendable.IndexFile
	open := func() error {
		return try(func() (err error) {
			if m != nil {
				if err := m.Close(); err != nil {
					return err
				}
			}
			m, err = mmap.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
			if err != nil {
				return err
			}
			x, err = appendable.NewIndexFile(m, handlerFor(w.csv), w.search)
			if err != nil {
				return err
			}
			if w.base != 0 {
				md, err := x.Metadata()
				if err != nil {
					return err
				}
				if md.ReadOffset < w.base {
					md.ReadOffset, md.Entries = w.base, bigCount
					return x.SetMetadata(md)
				}
			}
			return nil
		})
	}
	sync := func() error {
		if x == nil {
			if err := open(); err != nil {
				return err
			}
		}
		return try(func() error { return x.Synchronize(w.df()) })
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var err error
		switch o.K {
		case "rec", "flush":
			w.step(i, o)
		case "reopen":
			err = open()
		case "sync":
			err = sync()
		}
		if err != nil {
			return nil, at(i, viol("mmap-error", "%s on a memory-mapped file: %v", o.K, err))
		}
	}
	if err := sync(); err != nil {
		return nil, viol("mmap-error", "sync on a memory-mapped file: %v", err)
	}
	if err := m.Close(); err != nil {
		return nil, viol("mmap-error", "close: %v", err)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		harness("%v", err)
	}
	return b, nil
}

// ---------------------------------------------------------------- C12

type propC12 struct{}

func cliBinary() string {
	if s := os.Getenv("VERIF_CLI"); s != "" {
		return s
	}
	return filepath.Join(rootDir, "build", "appendable")
}

func (p propC12) Gen(r *Rng, big bool) *Scenario {
	for {
		sc := p.gen(r, big)
		ok := true
		for _, s := range sc.Strs {
			// cannot be given on a command line
			ok = ok && !strings.ContainsRune(s, 0)
		}
		if ok {
			return sc
		}
	}
}

// fileAges are by how much the data file was modified before the index.
var fileAges = []time.Duration{0, time.Nanosecond, time.Second, 30 * time.Minute, -time.Nanosecond, -time.Second, -1000 * time.Hour}

func (p propC12) gen(r *Rng, big bool) *Scenario {
	bad := 0
	sc := genDocs(r, big, "C12", docOpts{csv: -1, syncP: 0.3, reopenP: 0, checkP: 0, probeP: 0, noBase: true, flushAll: 0.5, maxRecs: 60, extraP: 0.25, extra: func(r *Rng, g *docGen) []Op {
		if bad < 1 && r.P(0.1) {
			bad++
			ops := []Op{{K: "bad", Rec: g.Bad()}, {K: "flush", M: 1}, {K: "sync"}}
			if r.P(0.5) {
				ops = append(ops, Op{K: "sync"})
			}
			return append(ops, Op{K: "repair", Rec: g.Rec()}, Op{K: "sync"})
		}
		k := pick(r, []string{"full", "full", "full", "full", "nodata", "dirdata", "noindexdir", "wrongformat", "noformat", "garbage", "noargs", "sync", "cutdata", "cutdata"})
		o := Op{K: "run", S: k}
		if k == "cutdata" {
			o.N, o.L = int64(r.N(1<<30)), int64(r.N(3))
		}
		if k == "full" {
			o.F = &Fault{Kind: "fsize", Arg: int64(r.Skew(100000))}
			if r.P(0.6) {
				o.F.Arg = int64(r.N(12)) * 4096
			}
			return []Op{{K: "flush", M: 1}, o}
		}
		if k == "sync" {
			o.S = ""
		}
		return []Op{o}
	}})
	var ops []Op
	syncs := 0
	x := NewRng(mix(r.s ^ 0xc12))
	for _, o := range sc.Ops {
		switch o.K {
		case "check", "probe", "reopen":
			continue
		case "sync":
			o = Op{K: "run", M: int64(r.N(16))}
			if syncs++; syncs > 12 {
				continue
			}
		}
		if o.K == "run" {
			o.M |= int64(x.N(len(fileAges))) << 4
		}
		ops = append(ops, o)
	}
	sc.Ops = append(ops, Op{K: "flush", M: 1}, Op{K: "run"})
	return sc
}

func (p propC12) Run(sc *Scenario, st *Stats) *Violation {
	bin := cliBinary()
	if _, err := os.Stat(bin); err != nil {
		harness("the command is not built: %v", err)
	}
	dir, done := scratch()
	defer done()
	data, index := filepath.Join(dir, "data"), filepath.Join(dir, "index")
	if err := os.Mkdir(filepath.Join(dir, "d"), 0o755); err != nil {
		harness("%v", err)
	}
	w := NewWorld(sc, st)
	// run executes the command and returns its exit status.
	run := func(args []string, limit int64) int {
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = []string{"GOMAXPROCS=2", "TMPDIR=" + dir, "HOME=" + dir, "PATH=/usr/bin:/bin"}
		start := func() error { return cmd.Start() }
		var err error
		if limit >= 0 {
			withLimit(unix.RLIMIT_FSIZE, uint64(limit), func() { err = start() })
		} else {
			err = start()
		}
		if err != nil {
			harness("starting the command: %v", err)
		}
		late := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		if !late.Stop() {
			return -2
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal())
		}
		return cmd.ProcessState.ExitCode()
	}
	indexBytes := func(path string) []byte {
		b, err := os.ReadFile(path)
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			harness("%v", err)
		}
		return b
	}
	exact := func(n int, what string) *Violation {
		l, err := w.read(&Disk{buf: indexBytes(index), style: w.disk.style}, w.df())
		if err != nil {
			return viol("unreadable-index", "%s: reading the index: %v", what, err)
		}
		v := compare(l, w.model(n), compareOpts{})
		if v != nil {
			v.Msg = what + ": " + v.Msg
		}
		return v
	}
	dead := false
	for i := range sc.Ops {
		o := &sc.Ops[i]
		var v *Violation
		switch o.K {
		case "bad":
			if o.Rec != nil && o.Rec.IsBad && (!w.csv || len(w.recs) > 0) {
				w.add(o.Rec)
			}
		case "repair":
			w.repair(o.Rec)
		case "run":
			df := w.df()
			if o.S == "cutdata" {
				// a truncated data file
				n := -1
				if !dead && w.syncedN > 0 {
					n = w.cutAt(o)
				}
				if n < 0 {
					continue
				}
				df = df[:n:n]
			}
			if err := os.WriteFile(data, df, 0o666); err != nil {
				harness("%v", err)
			}
			format := "-jsonl"
			if w.csv {
				format = "-csv"
			}
			args := []string{format, "-i", index}
			for _, s := range w.search {
				args = append(args, "-s", s)
			}
			if o.M&1 != 0 {
				args = append(args, "-t")
			}
			if o.M&2 != 0 {
				args = append(args, "-debug")
			}
			if o.M&12 == 12 {
				args = append(args, "-b", filepath.Join(dir, "bench"))
			}
			target := data
			limit := int64(-1)
			before := indexBytes(index)
			mustFail, mustKeep := "", false
			switch o.S {
			case "full":
				if o.F != nil {
					limit = int64(len(before)) + o.F.Arg
				}
			case "nodata":
				target, mustFail, mustKeep = filepath.Join(dir, "absent"), "the data file does not exist", true
			case "dirdata":
				target, mustFail, mustKeep = filepath.Join(dir, "d"), "the data file is a directory", true
			case "noindexdir":
				args[2], mustFail, mustKeep = filepath.Join(dir, "none", "index"), "the index cannot be created", true
			case "wrongformat":
				if len(before) == 0 {
					continue
				}
				args[0] = map[bool]string{true: "-jsonl", false: "-csv"}[w.csv]
				mustFail, mustKeep = "the index is of another format", !dead && w.syncedN > 0
				if !mustKeep {
					continue // there is no complete index yet
				}
			case "cutdata":
				mustFail, mustKeep = "the data file is shorter than what is indexed", true
			case "noformat":
				args = args[1:]
				mustFail, mustKeep = "no format was given", true
			case "noargs":
				target, mustFail, mustKeep = "", "no data file was given", true
			case "garbage":
				// a file that is no index
				g := bytes.Repeat([]byte("garbage "), 100)
				bad := filepath.Join(dir, "garbage")
				if err := os.WriteFile(bad, g, 0o666); err != nil {
					harness("%v", err)
				}
				args[2], mustFail, mustKeep = bad, "the index file is too short to be an index", true
			}
			if target != "" {
				args = append(args, target)
			}
			acked := w.syncedN
			isBad := w.firstBad() < w.complete()
			if isBad && mustFail == "" {
				mustFail = "a record is malformed"
			}
			// the times of files are simulated: data may be copied from elsewhere and
			// clocks may be off
			now := time.Unix(1_700_000_000+int64(i)*60, 0)
			ages := int(uint64(o.M)>>4) % len(fileAges)
			for name, when := range map[string]time.Time{data: now.Add(-fileAges[ages]), index: now, filepath.Join(dir, "garbage"): now} {
				if err := os.Chtimes(name, when, when); err != nil && !errors.Is(err, os.ErrNotExist) {
					harness("%v", err)
				}
			}
			code := run(args, limit)
			st.Ops++
			st.Steps++
			st.Probe("command")
			st.Probe("data-modified-" + fileAges[ages].String() + "-before-index")
			if mustFail != "" {
				st.Fault("cli-" + strings.ReplaceAll(mustFail, " ", "-"))
			}
			st.hash.Str(strings.ReplaceAll(strings.Join(args, " "), dir, ""))
			st.hash.Add(uint64(code))
			after := indexBytes(index)
			st.hash.Bytes(after)
			what := fmt.Sprintf("after %q %s with exit status %d", strings.ReplaceAll(strings.Join(args, " "), dir+"/", ""), o.S, code)
			if limit >= 0 {
				what += fmt.Sprintf(" (file size limit %d)", limit)
			}
			if b, err := os.ReadFile(data); err != nil || !bytes.Equal(b, df) {
				v = viol("data-modified", "%s: the data file changed", what)
				break
			}
			switch {
			case code == -2:
				v = viol("hang", "%s: the command did not end", what)
			case code == 0 && mustFail != "":
				v = viol("success-reported", "%s, although %s", what, mustFail)
			case code == 0:
				w.syncedN = w.complete()
				v = exact(w.syncedN, what)
				dead = false
				if limit >= 0 {
					st.Probe("success-under-limit")
				}
			case mustKeep:
				if !bytes.Equal(before, after) {
					v = viol("index-modified", "%s, because %s: the index changed", what, mustFail)
				}
			case isBad && limit < 0 && !dead:
				w.syncedN = w.firstBad()
				v = exact(w.syncedN, what)
			default:
				if limit < 0 && !dead {
					v = viol("failure-reported", "%s: nothing was wrong", what)
					break
				}
				if limit >= 0 {
					st.Fault("cli-storage-limit")
				}
				// the index is readable and has everything acknowledged, or says it is broken
				if len(after) == 0 && acked > 0 {
					v = viol("index-lost", "%s: the index is empty", what)
					break
				}
				if len(after) == 0 {
					break
				}
				l, err := w.read(&Disk{buf: after, style: w.disk.style}, w.df())
				if err != nil {
					st.Probe("interrupted-index-reports-error")
					dead = true
					break
				}
				st.Probe("interrupted-index-readable")
				if v = compare(l, w.model(acked), compareOpts{subset: true, all: w.model(w.indexable())}); v != nil {
					v.Class = "interrupted-" + v.Class
					v.Msg = what + ": " + v.Msg
					break
				}
				// a rerun may have to report an error from now on
				dead = true
			}
		default:
			_, v = w.step(i, o)
		}
		if v != nil {
			return at(i, v)
		}
	}
	w.probes()
	return nil
}
