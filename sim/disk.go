package main

import (
	"errors"
	"fmt"
	"io"
)

// Disk is the durable state of a simulated index file. Handles come and go with
// processes; only Disk survives a crash.
type Disk struct {
	buf []byte
	// style 0: reads at the end return data together with io.EOF and seeks beyond
	// the end fail, like the memory-mapped file. style 1: like os.File and the test
	// buffer, io.EOF only comes when there is no data.
	style int
	// gap bytes of zeros lie behind the first gapAt bytes of buf, which makes a file
	// of several GiB.
	gap int64
}

const gapAt = 2 * 4096

func (d *Disk) Clone() *Disk {
	return &Disk{buf: append([]byte(nil), d.buf...), style: d.style, gap: d.gap}
}

// setGap gives the file a gap, mostly none, else one that puts its pages around or
// beyond 2 GiB, 4 GiB or more.
func setGap(sc *Scenario, r *Rng) {
	if r.P(0.04) {
		k := 4096 * int64(r.In(2, 12))
		sc.Cfg["gap"] = pick(r, []int64{1<<31 - k, 1<<32 - k, 5 << 30, 1 << 40})
	}
}

// size is the length of the file.
func (d *Disk) size() int64 {
	if n := int64(len(d.buf)); n < gapAt {
		return n
	} else {
		return n + d.gap
	}
}

// phys is the place in buf of an offset of the file, -1 inside the gap.
func (d *Disk) phys(off int64) int64 {
	switch {
	case off < gapAt || d.gap == 0:
		return off
	case off < gapAt+d.gap:
		return -1
	}
	return off - d.gap
}

// page is the content of a page below size, nil inside the gap.
func (d *Disk) page(off int64) []byte {
	if off = d.phys(off); off < 0 {
		return nil
	}
	return d.buf[off : off+4096]
}

var errInjected = errors.New("injected storage error")
var errInjectedFull = errors.New("injected: no space left on device")

// crashSignal unwinds the simulated process.
type crashSignal struct{}

// budgetSignal is raised when a call uses an absurd number of storage operations.
type budgetSignal struct{ n int64 }

// Fault describes one injected fault, relative to the storage operations of the
// call it is attached to.
type Fault struct {
	// Kind: err (one operation fails, reads with or without part of the data), errp (it and all later ones fail), partial (a
	// write is applied by half and fails), full (growing fails from there on), short
	// (reads return fewer bytes than asked for), crash (process dies before the
	// write), crashafter.
	Kind string `json:"kind"`
	// At selects the operation (modulo the number of operations in the call).
	At  int64 `json:"at"`
	Arg int64 `json:"arg,omitempty"`
}

// Sess observes and disturbs the storage operations of one process.
type Sess struct {
	d     *Disk
	ops   int64 // storage operations in this call
	wr    int64 // writes in this call
	total int64
	fault *Fault
	fired bool
	short uint64 // != 0: short reads, seeded by this
	limit int64
	hash  *Hash
	st    *Stats
	// grown records the offsets at which the file grew during the call.
	grown []int64
}

type Handle struct {
	s   *Sess
	pos int64
}

var _ io.ReadWriteSeeker = &Handle{}

func NewSess(d *Disk, st *Stats) *Sess {
	return &Sess{d: d, limit: 40_000_000, hash: &st.hash, st: st}
}

// Begin starts a call with an optional fault.
func (s *Sess) Begin(f *Fault) {
	s.ops, s.wr, s.fired, s.fault = 0, 0, false, f
	s.grown = nil
}

func (s *Sess) End() { s.fault = nil }

func (s *Sess) Handle() *Handle { return &Handle{s: s} }

func (s *Sess) fire(k string) {
	if !s.fired {
		s.fired = true
		s.st.Fault(k)
	}
}

// op accounts one operation and returns an error to inject.
func (s *Sess) op(kind byte, off int64, n int) (partial bool, err error) {
	k := s.ops
	w := s.wr
	s.ops++
	s.total++
	s.st.Steps++
	s.hash.Add(uint64(kind)<<56 ^ uint64(off)<<16 ^ uint64(n))
	if kind == 'w' {
		s.wr++
	}
	if s.ops > s.limit {
		panic(budgetSignal{s.ops})
	}
	f := s.fault
	if f == nil {
		return false, nil
	}
	switch f.Kind {
	case "err":
		if k == f.At {
			s.fire("err-" + opName(kind))
			return false, errInjected
		}
	case "errp":
		if k >= f.At {
			s.fire("errp-" + opName(kind))
			return false, errInjected
		}
	case "partial":
		if kind == 'w' && w == f.At {
			s.fire("partial-write")
			return true, errInjected
		}
	case "werr":
		if kind == 'w' && w == f.At {
			s.fire("err-write")
			return false, errInjected
		}
	case "full":
		if kind == 'w' && w >= f.At && off+int64(n) > s.d.size() {
			s.fire("full")
			return false, errInjectedFull
		}
	case "crash":
		if kind == 'w' && w == f.At {
			s.fire("crash")
			panic(crashSignal{})
		}
	}
	return false, nil
}

func opName(k byte) string {
	switch k {
	case 'r':
		return "read"
	case 'w':
		return "write"
	}
	return "seek"
}

func (h *Handle) Read(b []byte) (int, error) {
	d := h.s.d
	if _, err := h.s.op('r', h.pos, len(b)); err != nil {
		// a failing read may have read some of the data, and a file that was cut off
		// fails with io.EOF after it
		at := d.phys(h.pos)
		z := mix(uint64(h.s.total) ^ uint64(h.pos))
		if len(b) < 2 || at < 0 || at >= int64(len(d.buf)) || z%4 < 2 {
			return 0, err
		}
		n := copy(b[:1+int((z>>8)%uint64(len(b)-1))], d.buf[at:])
		h.pos += int64(n)
		if z%4 == 2 {
			err = io.EOF
			h.s.st.Fault("eof-inside-read")
		} else {
			h.s.st.Fault("err-inside-read")
		}
		return n, err
	}
	if h.pos >= d.size() {
		return 0, io.EOF
	}
	if d.gap != 0 && h.pos < gapAt && h.pos+int64(len(b)) > gapAt {
		b = b[:gapAt-h.pos]
	}
	want := len(b)
	if h.s.short != 0 && want > 1 {
		z := mix(h.s.short ^ uint64(h.s.total))
		if z%3 != 0 {
			want = 1 + int((z>>8)%uint64(want-1))
			h.s.st.Fault("short-read")
		}
	}
	at := d.phys(h.pos)
	if at < 0 {
		want = int(min(int64(want), gapAt+d.gap-h.pos))
		clear(b[:want])
		h.pos += int64(want)
		return want, nil
	}
	n := copy(b[:want], d.buf[at:])
	h.pos += int64(n)
	if n < want && d.style == 0 {
		return n, io.EOF
	}
	return n, nil
}

func (h *Handle) Write(b []byte) (int, error) {
	partial, err := h.s.op('w', h.pos, len(b))
	if err != nil && !partial {
		return 0, err
	}
	p := b
	if partial {
		p = b[:len(b)/2]
	}
	d := h.s.d
	if h.pos > d.size() {
		return 0, errors.New("simulated disk: write beyond the end")
	}
	at := d.phys(h.pos)
	if at < 0 {
		return 0, errors.New("simulated disk: write to a page that is not allocated")
	}
	if d.gap != 0 && h.pos > gapAt {
		h.s.st.Probe("writes-beyond-the-gap")
	}
	if h.pos+int64(len(p)) > d.size() {
		h.s.grown = append(h.s.grown, h.pos)
	}
	n := copy(d.buf[at:], p)
	d.buf = append(d.buf, p[n:]...)
	h.pos += int64(len(p))
	h.s.hash.Bytes(p)
	return len(p), err
}

func (h *Handle) Seek(offset int64, whence int) (int64, error) {
	if _, err := h.s.op('s', offset, whence); err != nil {
		return 0, err
	}
	var abs int64
	switch whence {
	case io.SeekStart:
		abs = offset
	case io.SeekCurrent:
		abs = h.pos + offset
	case io.SeekEnd:
		abs = h.s.d.size() + offset
	default:
		return 0, fmt.Errorf("invalid whence")
	}
	if abs < 0 || abs > h.s.d.size() {
		return 0, fmt.Errorf("position out of bounds")
	}
	h.pos = abs
	return abs, nil
}
