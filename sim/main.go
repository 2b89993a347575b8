package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type propInfo struct {
	p     Prop // nil: the client simulator runs it
	quick int  // runs in the quick tier
	rule  string
	real  []string
	stub  []string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay|gen|bench|dataset ...")
		os.Exit(2)
	}
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	debug.SetPanicOnFault(true)
	signal.Ignore(syscall.SIGXFSZ)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "base seed")
	root := fs.String("root", "/verif", "where replays, evidence and known findings are")
	from := fs.Int64("from", 0, "first run")
	step := fs.Int64("step", 1, "run increment")
	runs := fs.Int64("runs", 0, "number of runs (0: by tier)")
	secs := fs.Float64("secs", 0, "time limit")
	status := fs.String("status", "", "status file")
	out := fs.String("out", "", "output file")
	scale := fs.Float64("scale", 1, "multiplies the number of runs")
	noshrink := fs.Bool("noshrink", false, "do not minimise")
	fs.Parse(os.Args[2:])
	rootDir = *root
	switch cmd {
	case "check":
		os.Exit(check(*prop, *tier, *seed, *runs, *secs, *scale))
	case "worker":
		worker(*prop, *tier, *seed, *from, *step, *runs, *secs, *status, *out, *noshrink)
	case "replay":
		os.Exit(replay(fs.Args()))
	case "gen":
		sc := genScenario(*prop, *seed, *from, *tier == "thorough")
		b, _ := json.MarshalIndent(sc, "", " ")
		os.Stdout.Write(append(b, '\n'))
	case "dataset":
		os.Exit(dataset(fs.Args()))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

var rootDir string

func genScenario(prop string, seed uint64, idx int64, big bool) *Scenario {
	var h Hash
	h.Str(prop)
	h.Add(seed)
	h.Add(uint64(idx))
	s := uint64(h)
	if props[prop].client() {
		return clientScenario(prop, seed, idx, big)
	}
	sc := props[prop].p.Gen(NewRng(s), big)
	sc.Prop = prop
	sc.Seed = s
	return sc
}

// ------------------------------------------------------------ known findings

type Finding struct {
	ID        string    `json:"id"`
	Property  string    `json:"property"`
	Signature string    `json:"signature"`
	What      string    `json:"what"`
	Scenario  *Scenario `json:"scenario,omitempty"`
}

type Known struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func loadKnown() *Known {
	k := &Known{}
	b, err := os.ReadFile(filepath.Join(rootDir, "known_findings.json"))
	if err != nil {
		return k
	}
	if err := json.Unmarshal(b, k); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return k
}

func (k *Known) match(prop string, v *Violation) *Finding {
	if v.Sig == "" {
		return nil
	}
	for i := range k.Findings {
		f := &k.Findings[i]
		if f.Property == prop && f.Signature == v.Sig {
			return f
		}
	}
	return nil
}

// ------------------------------------------------------------ worker

type WorkerOut struct {
	Stats     *Stats            `json:"stats"`
	Scenario  *Scenario         `json:"scenario,omitempty"`
	Original  *Scenario         `json:"original,omitempty"`
	Violation *Violation        `json:"violation,omitempty"`
	Run       int64             `json:"run"`
	Tries     int               `json:"tries"`
	Samples   []json.RawMessage `json:"samples,omitempty"`
	Secs      float64           `json:"secs"`
	Slowest   float64           `json:"slowest"`
	SlowRun   int64             `json:"slow_run"`
}

const (
	exitHang = 42
)

// hangAfter bounds the time of a single run; runs take well under a second.
var hangAfter = 120 * time.Second

func watchdog(cur *int64, mu *sync.Mutex, start *time.Time) {
	for {
		time.Sleep(time.Second)
		mu.Lock()
		hang := !start.IsZero() && time.Since(*start) > hangAfter
		mu.Unlock()
		if hang {
			os.Exit(exitHang)
		}
	}
}

// runIndexed performs one run from a fresh state of every global source of
// randomness the code under test uses.
func runIndexed(prop string, sc *Scenario, st *Stats) *Violation {
	rand.Seed(int64(sc.Seed))
	return runSafe(props[prop].p, sc, st)
}

func worker(prop, tier string, seed uint64, from, step, runs int64, secs float64, status, out string, noshrink bool) {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(200)
	known := loadKnown()
	st := NewStats()
	wo := &WorkerOut{Stats: st, Run: -1}
	var hashes []byte
	seen := map[uint64]bool{}
	var sf *os.File
	if status != "" {
		sf, _ = os.Create(status)
	}
	var mu sync.Mutex
	var started time.Time
	if out != "" {
		go watchdog(nil, &mu, &started)
	}
	t0 := time.Now()
	big := tier == "thorough"
	for i := from; i < runs; i += step {
		if secs > 0 && time.Since(t0).Seconds() > secs {
			break
		}
		if sf != nil {
			sf.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		mu.Lock()
		started = time.Now()
		mu.Unlock()
		sc := genScenario(prop, seed, i, big)
		st.curTriv = false
		st.Runs++
		r0 := time.Now()
		v := runIndexed(prop, sc, st)
		if d := time.Since(r0).Seconds(); d > wo.Slowest {
			wo.Slowest, wo.SlowRun = d, i
		}
		h := uint64(st.hash)
		if !seen[h] && st.curTriv {
			seen[h] = true
			st.NonTriv++
			var x [8]byte
			binary.LittleEndian.PutUint64(x[:], h)
			hashes = append(hashes, x[:]...)
			if len(wo.Samples) < 2 && len(sc.Ops) < 14 {
				b, _ := json.Marshal(sc)
				if len(b) < 3000 {
					wo.Samples = append(wo.Samples, b)
				}
			}
		}
		if i%53 == 0 {
			// the same seed must be the same execution
			st2 := NewStats()
			v2 := runIndexed(prop, sc, st2)
			st.Redone++
			if uint64(st2.hash) != h || (v == nil) != (v2 == nil) {
				st.Diverged++
			}
		}
		mu.Lock()
		started = time.Time{}
		mu.Unlock()
		if v == nil {
			continue
		}
		if f := known.match(prop, v); f != nil {
			st.Known[f.ID]++
			continue
		}
		if out == "" {
			fmt.Printf("run %d seed %d: step %d %s: %s sig=%s\n", i, sc.Seed, v.Step, v.Class, short(v.Msg, 300), v.Sig)
			if noshrink {
				continue
			}
		}
		wo.Run = i
		wo.Original = sc
		wo.Scenario, wo.Violation, wo.Tries = shrink(props[prop].p, sc, v, 25*time.Second)
		break
	}
	wo.Secs = time.Since(t0).Seconds()
	if out == "" {
		b, _ := json.MarshalIndent(wo, "", " ")
		if len(b) > 20000 {
			wo.Original = nil
			b, _ = json.MarshalIndent(wo, "", " ")
		}
		fmt.Println(string(b))
		return
	}
	b, _ := json.Marshal(wo)
	if err := os.WriteFile(out+".hashes", hashes, 0o644); err != nil {
		os.Exit(3)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		os.Exit(3)
	}
}

// ------------------------------------------------------------ replay

type Replay struct {
	Property  string     `json:"property"`
	Class     string     `json:"class"`
	Message   string     `json:"message"`
	Step      int        `json:"step"`
	BaseSeed  uint64     `json:"base_seed"`
	Run       int64      `json:"run"`
	Tier      string     `json:"tier"`
	Fatal     bool       `json:"fatal,omitempty"`
	Minimised bool       `json:"minimised"`
	TraceHash string     `json:"trace_hash,omitempty"`
	Scenario  *Scenario  `json:"scenario"`
	V         *Violation `json:"violation,omitempty"`
}

// replay runs a replay file: exit 1 and the violation if it reproduces.
func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	info, ok := props[r.Property]
	if r.Scenario == nil || !ok {
		fmt.Fprintln(os.Stderr, "not a replay file of this simulator")
		return 2
	}
	if info.client() {
		c := clientCmd("replay", "-root", rootDir, args[0])
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if err := c.Run(); err != nil && c.ProcessState == nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return c.ProcessState.ExitCode()
	}
	go func() {
		time.Sleep(2 * hangAfter)
		fmt.Println("hang: the scenario does not end")
		os.Exit(exitHang)
	}()
	st := NewStats()
	v := runIndexed(r.Property, r.Scenario, st)
	fmt.Printf("property %s, %d steps, trace %016x\n", r.Property, len(r.Scenario.Ops), uint64(st.hash))
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	if f := loadKnown().match(r.Property, v); f != nil {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Property, f.What)
		return 0
	}
	fmt.Printf("step %d: %s: %s\n", v.Step, v.Class, v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
	return 1
}

// ------------------------------------------------------------ check

func check(prop, tier string, seed uint64, runs int64, secs, scale float64) int {
	info, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	t0 := time.Now()
	if runs == 0 {
		runs = int64(float64(info.quick) * scale)
	}
	if secs == 0 {
		secs = 240
	}
	if tier == "thorough" {
		runs = 1 << 40
		secs = 720
		if s := os.Getenv("VERIF_THOROUGH_SECS"); s != "" {
			secs, _ = strconv.ParseFloat(s, 64)
		}
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	evid := filepath.Join(rootDir, "evidence", prop+".json")
	os.Remove(evid)

	known := loadKnown()
	violations := 0
	exit := 0
	report := func(rp *Replay) {
		dir := filepath.Join(rootDir, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", prop, rp.Class, seed, rp.Run))
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		code := 0
		for try := 0; try < 3 && code != 1; try++ {
			c := exec.Command(self, "replay", "-root", rootDir, path)
			ob, _ := c.CombinedOutput()
			code = c.ProcessState.ExitCode()
			if rp.Fatal && code != 0 {
				code = 1
			}
			if code != 1 {
				fmt.Printf("replay attempt gave exit %d: %s\n", code, short(string(ob), 500))
			}
		}
		if code != 1 && rp.Minimised {
			fmt.Println("the minimised scenario does not replay; no violation is reported for it")
			exit = 2
			return
		}
		if code != 1 {
			exit = 2
			return
		}
		fmt.Printf("%s: step %d: %s\n", rp.Class, rp.Step, short(rp.Message, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations++
		exit = 1
	}

	// listed findings
	for _, f := range known.Findings {
		if f.Property != prop || f.Scenario == nil {
			continue
		}
		if info.client() {
			b, _ := json.Marshal(&Replay{Property: prop, Scenario: f.Scenario})
			path := filepath.Join(tmp, f.ID+".json")
			os.WriteFile(path, b, 0o644)
			c := clientCmd("replay", "-root", rootDir, path)
			ob, _ := c.CombinedOutput()
			switch {
			case c.ProcessState.ExitCode() == 1:
				report(&Replay{Property: prop, Class: "listed", Message: string(ob), Step: -1, BaseSeed: seed, Run: -1, Tier: tier, Scenario: f.Scenario})
			case strings.Contains(string(ob), "KNOWN-FINDING"):
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			default:
				fmt.Printf("note: listed finding %s does not occur any more\n", f.ID)
			}
			continue
		}
		v := runIndexed(prop, f.Scenario, NewStats())
		switch {
		case v == nil:
			fmt.Printf("note: listed finding %s does not occur any more\n", f.ID)
		case v.Sig == f.Signature:
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
		default:
			report(&Replay{Property: prop, Class: v.Class, Message: v.Msg, Step: v.Step, BaseSeed: seed, Run: -1, Tier: tier, Scenario: f.Scenario, V: v})
		}
	}

	k := runtime.NumCPU()
	if k > 8 {
		k = 8
	}
	type res struct {
		i    int
		code int
		out  string
		cmd  *exec.Cmd
		buf  bytes.Buffer
	}
	ch := make(chan *res, k)
	var all []*res
	var mu sync.Mutex
	for i := 0; i < k; i++ {
		r := &res{i: i, out: filepath.Join(tmp, fmt.Sprintf("w%d", i))}
		wargs := []string{"worker", "-root", rootDir, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(i), "-step", fmt.Sprint(k), "-runs", fmt.Sprint(runs), "-secs", fmt.Sprint(secs), "-status", r.out + ".st", "-out", r.out}
		if info.client() {
			r.cmd = clientCmd(wargs...)
		} else {
			r.cmd = exec.Command(self, wargs...)
		}
		r.cmd.Stderr = &r.buf
		r.cmd.Stdout = &r.buf
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		all = append(all, r)
		started := make(chan error)
		go func() {
			// Pdeathsig is bound to the thread that started the process.
			runtime.LockOSThread()
			err := r.cmd.Start()
			started <- err
			if err != nil {
				return
			}
			r.cmd.Wait()
			mu.Lock()
			r.code = r.cmd.ProcessState.ExitCode()
			mu.Unlock()
			ch <- r
		}()
		if err := <-started; err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	total := NewStats()
	distinct := map[uint64]bool{}
	var samples []json.RawMessage
	killed := false
	var best *WorkerOut
	var fatal *res
	for n := 0; n < k; n++ {
		r := <-ch
		b, err := os.ReadFile(r.out)
		if err != nil || r.code != 0 {
			if killed {
				continue
			}
			fatal = r
			killed = true
			for _, o := range all {
				if o != r {
					o.cmd.Process.Kill()
				}
			}
			continue
		}
		wo := &WorkerOut{}
		if err := json.Unmarshal(b, wo); err != nil {
			fmt.Fprintln(os.Stderr, "worker output:", err)
			return 2
		}
		total.Merge(wo.Stats)
		hb, _ := os.ReadFile(r.out + ".hashes")
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = true
		}
		if len(samples) < 3 {
			samples = append(samples, wo.Samples...)
		}
		if wo.Violation != nil && best == nil {
			best = wo
			killed = true
			for _, o := range all {
				if o != r {
					o.cmd.Process.Kill()
				}
			}
		}
	}
	if best != nil {
		rp := &Replay{Property: prop, Class: best.Violation.Class, Message: best.Violation.Msg, Step: best.Violation.Step, BaseSeed: seed, Run: best.Run, Tier: tier, Minimised: true, Scenario: best.Scenario, V: best.Violation}
		report(rp)
		if exit == 2 {
			// fall back to the original
			exit = 0
			rp.Scenario, rp.Minimised = best.Original, false
			report(rp)
		}
	} else if fatal != nil {
		// a run brought its process down: run it again alone
		sb, _ := os.ReadFile(fatal.out + ".st")
		run, err := strconv.ParseInt(strings.TrimSpace(string(sb)), 10, 64)
		why := short(fatal.buf.String(), 3000)
		if _, e := os.Stat(fatal.out + ".hang"); e == nil {
			fatal.code = exitHang
		}
		if err != nil || fatal.code == 3 || fatal.code == 2 && !strings.Contains(why, "fatal error") && !strings.Contains(why, "panic:") {
			fmt.Fprintf(os.Stderr, "a worker failed (exit %d): %s\n", fatal.code, why)
			return 2
		}
		if fatal.code == -1 && !strings.Contains(strings.ToLower(why), "fatal error") {
			fmt.Fprintf(os.Stderr, "a worker was killed: %s\n", why)
			return 2
		}
		if strings.Contains(why, "HARNESS") {
			fmt.Fprintf(os.Stderr, "the harness failed in run %d: %s\n", run, why)
			return 2
		}
		sc := genScenario(prop, seed, run, tier == "thorough")
		class := "fatal"
		if fatal.code == exitHang {
			class = "hang"
			why = "a run did not end within a minute or more of processor time"
		}
		report(&Replay{Property: prop, Class: class, Message: why, Step: -1, BaseSeed: seed, Run: run, Tier: tier, Fatal: true, Scenario: sc})
		if exit == 0 {
			fmt.Fprintf(os.Stderr, "a worker died in run %d, which does not reproduce: %s\n", run, why)
			return 2
		}
	}
	wall := time.Since(t0).Seconds()
	if total.Diverged > 0 {
		fmt.Printf("note: %d of %d repeated runs took another course\n", total.Diverged, total.Redone)
	}
	ks := []string{}
	for id := range total.Known {
		ks = append(ks, id)
	}
	sort.Strings(ks)
	for _, id := range ks {
		fmt.Printf("note: known finding %s occurred in %d runs\n", id, total.Known[id])
	}
	if len(samples) == 0 {
		b, _ := json.Marshal(genScenario(prop, seed, 0, false))
		if len(b) > 4000 {
			b, _ = json.Marshal(short(string(b), 4000))
		}
		samples = append(samples, b)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations":                   total.Runs,
			"distinct_nontrivial":           len(distinct),
			"rule":                          info.rule + " Distinct: " + info.distinct(),
			"samples":                       samples,
			"runs_and_seeds_per_hour":       int64(float64(total.Runs) / wall * 3600),
			"simulated_time":                fmt.Sprintf("%d %s", total.Steps, info.unit()),
			"operations":                    total.Ops,
			"faults_injected":               total.Faults,
			"situations_reached":            total.Probes,
			"runs_repeated_for_determinism": total.Redone,
			"runs_that_diverged":            total.Diverged,
			"known_findings_hit":            total.Known,
			"components_real":               info.real,
			"components_stubbed":            info.stub,
			"workers":                       k,
		},
		"assumptions": info.assumptions(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(evid), 0o755)
	if err := os.WriteFile(evid, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if exit == 0 && total.Runs == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %d %s, %.1f s\n", prop, tier, total.Runs, len(distinct), total.Steps, info.unit(), wall)
	return exit
}
