package main

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"sort"

	"github.com/kevmo314/appendable/pkg/mmap"
)

// Files beyond 2 and 4 GiB for C10: sparse files of zeros with a few writes.

func genBigMap(r *Rng, sc *Scenario) {
	base := pick(r, []int64{1 << 31, 1 << 32, 5 << 30})
	sc.Cfg["big"] = base + int64(r.In(-9000, 9000))
	near := func() int64 {
		c := pick(r, []int64{base, base, sc.Cfg["big"], sc.Cfg["big"], 1 << 31, 0})
		return max(0, c+int64(r.In(-5000, 5000)))
	}
	for i := r.In(3, 25); i > 0; i-- {
		o := Op{K: pick(r, []string{"writeat", "writeat", "write", "readat", "readat", "read", "seek", "end", "reopen", "append"}), N: near(), M: int64(r.In(1, 9000))}
		sc.Ops = append(sc.Ops, o)
	}
	sc.Ops = append(sc.Ops, Op{K: "reopen"})
}

func (p propC10) runBig(sc *Scenario, st *Stats) *Violation {
	dir, done := scratch()
	defer done()
	path := filepath.Join(dir, "f")
	size := sc.Cfg["big"]
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		harness("%v", err)
	}
	defer f.Close()
	if err := f.Truncate(size); err != nil {
		st.Probe("no sparse files")
		return nil
	}
	st.Probe("file beyond 2 GiB")
	// what was written, by 512-byte blocks
	blocks := map[int64][]byte{}
	put := func(off int64, b []byte) {
		for i, x := range b {
			k := (off + int64(i)) >> 9
			if blocks[k] == nil {
				blocks[k] = make([]byte, 512)
			}
			blocks[k][(off+int64(i))&511] = x
		}
		size = max(size, off+int64(len(b)))
	}
	get := func(off, n int64) []byte {
		n = max(0, min(n, size-off))
		out := make([]byte, n)
		for i := range out {
			if b := blocks[(off+int64(i))>>9]; b != nil {
				out[i] = b[(off+int64(i))&511]
			}
		}
		return out
	}
	var m *mmap.MemoryMappedFile
	defer func() {
		if m != nil {
			try(func() error { return m.Close() })
		}
	}()
	var pos int64
	open := func() *Violation {
		if err := try(func() (err error) {
			if m != nil {
				if err := m.Close(); err != nil {
					return err
				}
			}
			m, err = mmap.OpenFile(path, os.O_RDWR, 0)
			return err
		}); err != nil {
			return viol("open-error", "opening a file of %d bytes: %v", size, err)
		}
		pos = 0
		if n := len(m.Bytes()); int64(n) != size {
			return viol("map-size", "the map has %d bytes, expected %d", n, size)
		}
		return nil
	}
	// look compares everything written with the map and the file
	look := func(what string) *Violation {
		if fi, err := f.Stat(); err != nil {
			harness("%v", err)
		} else if fi.Size() != size {
			return viol("file-content", "%s: the file has %d bytes, expected %d", what, fi.Size(), size)
		}
		keys := make([]int64, 0, len(blocks))
		for k := range blocks {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		mb := m.Bytes()
		for _, k := range keys {
			want := get(k<<9, 512)
			b := make([]byte, len(want))
			if n, err := f.ReadAt(b, k<<9); n != len(b) {
				harness("%v", err)
			}
			if !bytes.Equal(b, want) {
				return viol("file-content", "%s: the file differs at %d", what, k<<9+int64(firstDiff(b, want)))
			}
			if int64(len(mb)) < k<<9+int64(len(want)) || !bytes.Equal(mb[k<<9:][:len(want)], want) {
				return viol("map-content", "%s: the map of %d bytes differs at %d", what, len(mb), k<<9)
			}
		}
		return nil
	}
	if v := open(); v != nil {
		m = nil
		return at(0, v)
	}
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		st.Steps++
		var n int
		var v *Violation
		data := make([]byte, o.M)
		r := NewRng(sc.Seed ^ uint64(i)<<20)
		for j := range data {
			data[j] = byte(r.U64() | 1)
		}
		switch o.K {
		case "writeat", "write", "append":
			off := o.N
			switch o.K {
			case "write":
				off = pos
			case "append":
				off = size
			}
			err := try(func() (err error) {
				if o.K == "write" {
					n, err = m.Write(data)
				} else {
					n, err = m.WriteAt(data, off)
				}
				return err
			})
			if err != nil || int64(n) != o.M {
				v = viol("write-error", "writing %d bytes at %d of %d: %d, %v", o.M, off, size, n, err)
				break
			}
			put(off, data)
			if o.K == "write" {
				pos += o.M
			}
			v = look("after writing")
		case "readat", "read":
			off := o.N
			if o.K == "read" {
				off = pos
			}
			buf := make([]byte, o.M)
			err := try(func() (err error) {
				if o.K == "read" {
					n, err = m.Read(buf)
				} else {
					n, err = m.ReadAt(buf, off)
				}
				return err
			})
			want := get(off, o.M)
			if n != len(want) || !bytes.Equal(buf[:n], want) || err != nil && err != io.EOF || err == nil && int64(n) < o.M {
				v = viol("read-content", "reading %d bytes at %d of %d gave %d bytes, %v, first difference at %d", o.M, off, size, n, err, firstDiff(buf[:max(0, min(n, len(buf)))], want))
				break
			}
			if o.K == "read" {
				pos += int64(n)
			}
		case "seek", "end":
			var got int64
			to, whence := o.N, io.SeekStart
			if o.K == "end" {
				to, whence = size-o.M, io.SeekEnd
			} else if to > size {
				to = size
			}
			err := try(func() (err error) {
				if whence == io.SeekEnd {
					got, err = m.Seek(to-size, whence)
				} else {
					got, err = m.Seek(to, whence)
				}
				return err
			})
			if err != nil || got != to {
				v = viol("seek", "seeking to %d of %d gave %d, %v", to, size, got, err)
				break
			}
			pos = to
		case "reopen":
			if v = open(); v == nil {
				v = look("after reopening")
			}
		}
		if v != nil {
			m = nil
			return at(i, v)
		}
		st.hash.Add(uint64(size) ^ uint64(pos)<<7 ^ uint64(o.M)<<50)
		st.hash.Str(o.K)
	}
	st.curTriv = len(sc.Ops) > 2
	return nil
}
