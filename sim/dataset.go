package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"os"
	"runtime"
	"runtime/debug"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
)

// dataset serves the client simulator: frames of a 4-byte length and a JSON
// request in, frames of a status byte, a 4-byte length and the bytes of the
// index (or an error text) out.
func dataset(args []string) int {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(800)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		var n [4]byte
		if _, err := io.ReadFull(in, n[:]); err != nil {
			return 0
		}
		b := make([]byte, binary.LittleEndian.Uint32(n[:]))
		if _, err := io.ReadFull(in, b); err != nil {
			return 2
		}
		out, err := buildIndex(b)
		status := byte(0)
		if err != nil {
			status, out = 1, []byte(err.Error())
		}
		h := make([]byte, 5)
		h[0] = status
		binary.LittleEndian.PutUint32(h[1:], uint32(len(out)))
		if _, err := os.Stdout.Write(append(h, out...)); err != nil {
			return 2
		}
	}
}

func buildIndex(req []byte) (out []byte, err error) {
	var q struct {
		Data   string   `json:"data"`
		Search []string `json:"search"`
		Cuts   []int    `json:"cuts"`
		Base   uint64   `json:"base"` // bytes of the data file before the records, already read
		Gap    int64    `json:"gap"`  // bytes of the index file after its first two pages
	}
	if err := json.Unmarshal(req, &q); err != nil {
		return nil, err
	}
	f := &memFile{gap: q.Gap}
	err = try(func() error {
		for _, cut := range append(q.Cuts, len(q.Data)) {
			if cut > len(q.Data) {
				cut = len(q.Data)
			}
			x, err := appendable.NewIndexFile(f, handlers.JSONLHandler{}, q.Search)
			if err != nil {
				return err
			}
			if q.Base != 0 {
				m, err := x.Metadata()
				if err != nil {
					return err
				}
				if m.ReadOffset < q.Base {
					m.ReadOffset = q.Base
					if err := x.SetMetadata(m); err != nil {
						return err
					}
				}
			}
			if err := x.Synchronize(dataAt(q.Base, q.Data[:cut])); err != nil {
				return err
			}
		}
		return nil
	})
	return f.buf, err
}

func dataAt(base uint64, data string) []byte {
	if base == 0 {
		return []byte(data)
	}
	b := bigFile()
	if base > bigBase {
		panic("HARNESS: base")
	}
	copy(b[base:], data)
	return b[: base+uint64(len(data)) : base+uint64(len(data))]
}

// memFile is a file in memory, without faults and without a trace.
type memFile struct {
	buf []byte
	pos int64
	gap int64 // bytes of zeros after the first gapAt bytes of buf
}

// at is the place in buf of the position, which lies outside of the gap.
func (f *memFile) at() int64 {
	switch {
	case f.gap == 0 || f.pos < gapAt:
		return f.pos
	case f.pos < gapAt+f.gap:
		panic("HARNESS: access inside the gap")
	}
	return f.pos - f.gap
}

func (f *memFile) Read(b []byte) (int, error) {
	at := f.at()
	if at >= int64(len(f.buf)) {
		return 0, io.EOF
	}
	if f.gap != 0 && at < gapAt && at+int64(len(b)) > gapAt {
		b = b[:gapAt-at]
	}
	n := copy(b, f.buf[at:])
	f.pos += int64(n)
	return n, nil
}

func (f *memFile) Write(b []byte) (int, error) {
	at := f.at()
	if end := at + int64(len(b)); end > int64(len(f.buf)) {
		f.buf = append(f.buf, make([]byte, end-int64(len(f.buf)))...)
	}
	n := copy(f.buf[at:], b)
	f.pos += int64(n)
	return n, nil
}

func (f *memFile) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += f.pos
	case io.SeekEnd:
		offset += int64(len(f.buf))
		if len(f.buf) >= gapAt {
			offset += f.gap
		}
	}
	if offset < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = offset
	return offset, nil
}
