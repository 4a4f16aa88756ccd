package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer builds the native binary once and replays assignments.
type Replayer struct {
	dir, mod string
	once     sync.Once
	bin      string
	err      string
	n        int
}

type replayFile struct {
	Property string            `json:"property,omitempty"`
	Files    []string          `json:"files,omitempty"`
	Harness  string            `json:"harness"`
	Params   map[string]int    `json:"params"`
	Inputs   map[string]uint64 `json:"inputs"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"message"`
	Site     string            `json:"site"`
	Trace    string            `json:"trace"`
}

func (r *Replayer) build() {
	r.once.Do(func() {
		r.bin = filepath.Join(r.dir, "zzreplay.bin")
		c := exec.Command("go", "build", "-o", r.bin, "./zzverif/replay")
		c.Dir = r.dir
		c.Env = goEnv()
		out, err := c.CombinedOutput()
		if err != nil {
			r.err = fmt.Sprintf("native build failed: %v\n%s", err, out)
		}
	})
}

// replay runs the violation's inputs natively and sets Status and Output.
func (r *Replayer) replay(prop string, j Job, v *Violation, outDir string) {
	r.build()
	if r.err != "" {
		v.Status = "replay build failed"
		v.Output = r.err
		return
	}
	r.n++
	p := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", prop, j.ID, r.n))
	b, _ := json.MarshalIndent(replayFile{Property: prop, Files: j.Files, Harness: j.Harness, Params: j.Params, Inputs: v.Inputs, Kind: v.Kind, Msg: v.Msg, Site: v.Site, Trace: v.Trace}, "", " ")
	os.WriteFile(p, b, 0o644)
	v.Replay = p
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	scratch, _ := os.MkdirTemp("", "gosymreplay")
	defer os.RemoveAll(scratch)
	c := exec.CommandContext(ctx, r.bin, p)
	c.Dir = scratch
	c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	out, _ := c.CombinedOutput()
	v.Output = string(out)
	code := c.ProcessState.ExitCode()
	switch {
	case code == 10:
		v.Status = "reproduced: assertion"
		if v.Kind == "assert" && !strings.Contains(v.Output, v.Msg) {
			v.Status = "reproduced: another assertion"
		}
	case code == 11 || (code == 2 && strings.Contains(v.Output, "panic:")) || strings.Contains(v.Output, "fatal error:"):
		v.Status = "reproduced: panic"
	case code == 12 || ctx.Err() != nil:
		v.Status = "reproduced: hang"
	case code == 0:
		v.Status = "ok"
	default:
		v.Status = fmt.Sprintf("not reproduced (exit %d)", code)
	}
}

func (v *Violation) reproduced() bool { return strings.HasPrefix(v.Status, "reproduced") }
