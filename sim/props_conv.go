package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"golang.org/x/sys/unix"
)

// ---------------------------------------------------------------- C28

// propC28 runs the conversion script (scripts/jsonl2json) on scratch files.
type propC28 struct{}

func convBinary() string {
	if s := os.Getenv("VERIF_CONV"); s != "" {
		return s
	}
	return filepath.Join(rootDir, "build", "jsonl2json")
}

// convNames are input names; the first four are ones the script is meant for.
var convNames = []string{"data.jsonl", "a b \u00e9.jsonl", "data.v2.jsonl", "deep/er/x.jsonl", "data.txt", "data", "data.JSONL", "data.json", "jsonl"}

const convProper = 4

func convValue(r *Rng, depth int, b *bytes.Buffer) {
	ws := func() {
		if r.P(0.1) {
			b.WriteString(pick(r, []string{" ", "\t", "  "}))
		}
	}
	str := func() {
		b.WriteByte('"')
		for n := r.Skew(12); n > 0; n-- {
			b.WriteString(pick(r, []string{"a", "Z", "0", " ", "\\n", "\\\"", "\\\\", "\\u0000", "\\u00e9", "\\ud83d\\ude00", "\u00e9", "\U0001F600", "/", "\\/", "\u2028", "{", "[", ","}))
		}
		b.WriteByte('"')
	}
	ws()
	switch k := r.N(8); {
	case k == 0 && depth > 0:
		b.WriteByte('{')
		for i, n := 0, r.Skew(6); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			if r.P(0.5) {
				fmt.Fprintf(b, "%q", string(rune('a'+r.N(4))))
			} else {
				str()
			}
			ws()
			b.WriteByte(':')
			convValue(r, depth-1, b)
		}
		b.WriteByte('}')
	case k == 1 && depth > 0:
		b.WriteByte('[')
		for i, n := 0, r.Skew(6); i < n; i++ {
			if i > 0 {
				b.WriteByte(',')
			}
			convValue(r, depth-1, b)
		}
		b.WriteByte(']')
	case k == 2:
		b.WriteString(pick(r, []string{"true", "false", "null"}))
	case k < 6:
		str()
	default:
		b.WriteString(pick(r, []string{"0", "-0", "1", "-1", "1.5", "-2.25e3", "1E2", "1e-7", "9007199254740993", "18446744073709551615", "-9223372036854775808", "123456789012345678901234567890", "0.1", "3.141592653589793", "1.7976931348623157e308"}))
		if r.P(0.5) {
			b.Truncate(bytes.LastIndexAny(b.Bytes(), ":[,{ \t") + 1)
			b.WriteString(strconv.FormatInt(int64(r.U64())>>uint(r.N(63)), 10))
		}
	}
	ws()
}

func (propC28) Gen(r *Rng, big bool) *Scenario {
	sc := &Scenario{Prop: "C28", Cfg: map[string]int64{"name": int64(r.N(len(convNames)))}}
	if r.P(0.6) {
		sc.Cfg["name"] = int64(r.N(convProper))
	}
	line := func() Op {
		var b bytes.Buffer
		if r.P(0.8) {
			b.WriteString("{\"k\":")
			convValue(r, 3, &b)
			b.WriteString("}")
		} else {
			convValue(r, 4, &b)
		}
		if r.P(0.02) {
			return Op{K: "line", B: []byte("\"" + strings.Repeat("long", r.In(1000, 40000)) + "\"")}
		}
		return Op{K: "line", B: b.Bytes(), M: int64(r.N(5) / 4)}
	}
	bad := -1
	for i, n := 0, 1+r.Skew(40); i < n; i++ {
		switch k := r.N(20); {
		case k < 9:
			sc.Ops = append(sc.Ops, line())
		case k == 9 && bad < 0:
			sc.Ops = append(sc.Ops, Op{K: "line", B: []byte(pick(r, []string{"{", "{\"a\":1", "{\"a\":1}}", "[1,]", "nul", "{} {}", "{'a':1}", "\"a", "{\"a\":\"\xff\"}", "01", "{\"a\" 1}", "+1", "\"\\x\""}))})
			sc.Ops = append(sc.Ops, Op{K: "convert"}, Op{K: "drop"})
			bad = i
		case k == 10:
			o := line()
			o.K = "tail"
			sc.Ops = append(sc.Ops, o)
		case k == 11:
			sc.Ops = append(sc.Ops, Op{K: "stale", N: int64(r.Skew(5000))})
		case k == 12:
			sc.Ops = append(sc.Ops, Op{K: "convert", S: pick(r, []string{"absent", "dir", "outdir", "noargs"})})
		case k == 13:
			sc.Ops = append(sc.Ops, Op{K: "truncate", N: int64(r.N(1 << 20))})
		case k < 16:
			sc.Ops = append(sc.Ops, Op{K: "convert", F: &Fault{Kind: "fsize", Arg: int64(r.Skew(3000))}})
		default:
			sc.Ops = append(sc.Ops, Op{K: "convert"})
		}
	}
	sc.Ops = append(sc.Ops, Op{K: "convert"})
	return sc
}

// sameJSON compares two decoded values; numbers beyond 64-bit integers need to
// agree only as double precision numbers.
func sameJSON(a, b any) bool {
	switch a := a.(type) {
	case map[string]any:
		b, ok := b.(map[string]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for k, x := range a {
			if y, ok := b[k]; !ok || !sameJSON(x, y) {
				return false
			}
		}
		return true
	case []any:
		b, ok := b.([]any)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameJSON(a[i], b[i]) {
				return false
			}
		}
		return true
	case json.Number:
		b, ok := b.(json.Number)
		if !ok {
			return false
		}
		if i, err := strconv.ParseInt(string(a), 10, 64); err == nil && i != 0 {
			return strconv.FormatInt(i, 10) == string(b)
		}
		if u, err := strconv.ParseUint(string(a), 10, 64); err == nil && u != 0 {
			return strconv.FormatUint(u, 10) == string(b)
		}
		x, err1 := a.Float64()
		y, err2 := b.Float64()
		return err1 == nil && err2 == nil && math.Abs(x-y) <= 4e-16*math.Max(math.Abs(x), math.Abs(y))
	}
	return a == b
}

func decodeJSON(b []byte) (v any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err = d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the value")
	}
	return v, nil
}

func (propC28) Run(sc *Scenario, st *Stats) *Violation {
	bin := convBinary()
	if _, err := os.Stat(bin); err != nil {
		harness("the script is not built: %v", err)
	}
	dir, done := scratch()
	defer done()
	must := func(err error) {
		if err != nil {
			harness("%v", err)
		}
	}
	name := convNames[int(sc.Cfg["name"])%len(convNames)]
	proper := int(sc.Cfg["name"])%len(convNames) < convProper
	input := filepath.Join(dir, name)
	output := strings.TrimSuffix(input, ".jsonl") + ".json"
	must(os.MkdirAll(filepath.Dir(input), 0o755))
	var data []byte
	last := -1 // where the line before ends, for "drop"
	run := func(limit int64, args ...string) int {
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = []string{"TMPDIR=" + dir, "HOME=" + dir, "PATH=/usr/bin:/bin"}
		var err error
		if limit >= 0 {
			withLimit(unix.RLIMIT_FSIZE, uint64(limit), func() { err = cmd.Start() })
		} else {
			err = cmd.Start()
		}
		if err != nil {
			harness("starting the script: %v", err)
		}
		late := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		if !late.Stop() {
			return -2
		}
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal())
		}
		return cmd.ProcessState.ExitCode()
	}
	// files lists the regular files of the scratch directory
	files := func() map[string][]byte {
		m := map[string][]byte{}
		must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() {
				var b []byte
				if b, err = os.ReadFile(p); err == nil {
					m[p] = b
				}
			}
			return err
		}))
		return m
	}
	converted := 0
	for i := range sc.Ops {
		o := &sc.Ops[i]
		st.Ops++
		switch o.K {
		case "line", "tail":
			if len(data) > 0 && data[len(data)-1] != '\n' {
				data = append(data, '\n')
			}
			last = len(data)
			data = append(data, o.B...)
			if o.K == "line" {
				if o.M == 1 {
					data = append(data, '\r')
				}
				data = append(data, '\n')
			}
		case "drop":
			if last >= 0 {
				data = data[:last]
			}
		case "truncate":
			// the file is written anew, with fewer lines
			if n := bytes.LastIndexByte(data[:int(o.N)%(len(data)+1)], '\n'); n >= 0 {
				data = data[:n+1]
			}
			last = -1
		case "stale":
			if proper {
				must(os.WriteFile(output, bytes.Repeat([]byte("[0] "), int(o.N)), 0o666))
			}
		case "convert":
			var want []any
			bad := false
			for _, l := range bytes.Split(bytes.TrimSuffix(data, []byte{'\n'}), []byte{'\n'}) {
				v, err := decodeJSON(bytes.TrimSuffix(l, []byte{'\r'}))
				if len(data) > 0 && (err != nil || !utf8.Valid(l)) {
					bad = true
				} else if len(data) > 0 {
					want = append(want, v)
				}
			}
			must(os.WriteFile(input, data, 0o666))
			args := []string{"-f", input}
			mustFail, mayWrite := "", false
			if bad {
				mustFail = "a line is malformed"
			}
			limit := int64(-1)
			if o.F != nil {
				limit, mayWrite = o.F.Arg, true
			}
			moved := ""
			switch o.S {
			case "absent":
				args[1], mustFail = filepath.Join(dir, "absent.jsonl"), "the input does not exist"
			case "dir":
				must(os.MkdirAll(filepath.Join(dir, "dir.jsonl"), 0o755))
				args[1], mustFail = filepath.Join(dir, "dir.jsonl"), "the input is a directory"
			case "noargs":
				args, mustFail = nil, "no input was given"
			case "outdir":
				if proper {
					moved = output + ".kept"
					if os.Rename(output, moved) != nil {
						moved = "-"
					}
					must(os.Mkdir(output, 0o755))
					mustFail = "the output is a directory"
				}
			}
			before := files()
			code := run(limit, args...)
			after := files()
			if moved != "" {
				must(os.Remove(output))
				if moved != "-" {
					must(os.Rename(moved, output))
				}
			}
			st.Steps++
			st.hash.Str(name + o.S)
			st.hash.Add(uint64(code))
			if mustFail != "" {
				st.Fault("conv-" + strings.ReplaceAll(mustFail, " ", "-"))
			}
			what := fmt.Sprintf("converting %q (%d bytes, %d lines) %s ended with status %d", name, len(data), len(want), o.S, code)
			if limit >= 0 {
				what += fmt.Sprintf(" (file size limit %d)", limit)
			}
			for p, b := range before {
				if a, ok := after[p]; (p != output || !proper || mustFail != "" && !mayWrite) && (!ok || !bytes.Equal(a, b)) {
					return at(i, viol("file-changed", "%s: %q changed", what, strings.TrimPrefix(p, dir+"/")))
				}
			}
			holds := func(b []byte) bool {
				v, err := decodeJSON(b)
				got, ok := v.([]any)
				if want == nil {
					return err == nil && ok && len(got) == 0
				}
				return err == nil && ok && utf8.Valid(b) && sameJSON(want, got)
			}
			switch {
			case code == -2:
				return at(i, viol("hang", "%s: it did not end", what))
			case code == 0 && mustFail != "":
				return at(i, viol("success-reported", "%s, although %s", what, mustFail))
			case code == 0 && proper:
				if !holds(after[output]) {
					return at(i, viol("wrong-output", "%s: the output is not the array of the lines: %.300q", what, after[output]))
				}
				st.hash.Bytes(after[output])
				converted++
			case code == 0:
				found := false
				for p, b := range after {
					found = found || p != input && holds(b)
				}
				if !found {
					return at(i, viol("wrong-output", "%s: no file holds the array of the lines", what))
				}
			case limit >= 0:
				st.Fault("conv-storage-limit")
			case mustFail == "" && proper:
				return at(i, viol("failure-reported", "%s: nothing was wrong", what))
			}
		}
	}
	st.curTriv = converted > 0
	return nil
}

func init() {
	props["C28"] = propInfo{propC28{}, 8000, "A sequence of conversions of a growing or rewritten file with limits, malformed lines, odd names and bad arguments; non-trivial: a conversion succeeded.", []string{"scripts/jsonl2json as a process", "the kernel's file calls, on scratch files"}, []string{"file-size limit of the child process stands in for a full disk"}}
}
