package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// Properties of the TypeScript client run in the simulator in /verif/tssim; this
// process starts its workers and reports what they find.

func (i propInfo) client() bool { return i.p == nil }

func clientCmd(args ...string) *exec.Cmd {
	a := append([]string{"--max-old-space-size=2048", filepath.Join(rootDir, "tssim", "main.mjs")}, args...)
	c := exec.Command("node", a...)
	self, _ := os.Executable()
	c.Env = append(os.Environ(), "VERIF_BUILD="+filepath.Dir(self), "VERIF_SIM="+self)
	return c
}

func clientScenario(prop string, seed uint64, idx int64, big bool) *Scenario {
	tier := "quick"
	if big {
		tier = "thorough"
	}
	b, err := clientCmd("gen", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(idx)).Output()
	sc := &Scenario{}
	if err == nil {
		err = json.Unmarshal(b, sc)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS: generating a scenario of the client:", err)
		os.Exit(2)
	}
	return sc
}

func (i propInfo) unit() string {
	if i.client() {
		return "network and timer events"
	}
	return "storage operations"
}

func (i propInfo) distinct() string {
	if i.client() {
		return "the hash over every event of the run in order (request with its range, headers and chunk delivered, result yielded, query ended) differs."
	}
	return "the hash over every storage operation (kind, offset, length, bytes written) of the run differs."
}

func (i propInfo) assumptions() []string {
	if i.client() {
		return []string{
			"The data and index files do not change while a client has them open.",
			"A server that stops answering is outside the model: the client sets no time limits.",
			"A response whose status, headers and length all agree with the request carries the bytes of the file.",
		}
	}
	return []string{
		"Storage writes become durable in the order they are issued; power loss that reorders or drops cached writes is outside the model (the code never syncs).",
		"The data file is append-only, apart from the repair of malformed records that C07 describes.",
	}
}
