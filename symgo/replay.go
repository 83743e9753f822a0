package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Replayer runs recorded values against the real build.
type Replayer struct {
	dir  string
	bin  string
	race string
	err  error
}

type caseJSON struct {
	Harness string  `json:"harness"`
	Tier    int     `json:"tier"`
	Values  []ndOut `json:"values"`
}

type resultJSON struct {
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	Shows    [][2]string `json:"shows"`
	Diverged string      `json:"diverged"`
}

func newReplayer() *Replayer {
	r := &Replayer{}
	r.dir, r.err = os.MkdirTemp("", "symgo")
	if r.err != nil {
		return r
	}
	// the replay binary gives up its privileges and works in t
	os.Chmod(r.dir, 0o711)
	os.Mkdir(filepath.Join(r.dir, "t"), 0o777)
	os.Chmod(filepath.Join(r.dir, "t"), 0o777)
	b, _ := json.Marshal(map[string]any{"Replace": overlayFiles()})
	os.WriteFile(filepath.Join(r.dir, "overlay.json"), b, 0o644)
	r.bin, r.err = r.build("replay")
	return r
}

func (r *Replayer) build(out string, flags ...string) (string, error) {
	bin := filepath.Join(r.dir, out)
	args := append([]string{"build", "-overlay", filepath.Join(r.dir, "overlay.json"), "-o", bin}, flags...)
	cmd := exec.Command("go", append(args, modPath+"/zzverif/replay")...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay binary: %v: %s", err, o)
	}
	return bin, nil
}

func (r *Replayer) cleanup() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *Replayer) exec(bin string, cases any, limit time.Duration) (out []resultJSON, stderr string, code int) {
	b, _ := json.Marshal(cases)
	f := filepath.Join(r.dir, "case.json")
	os.WriteFile(f, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=1", "TMPDIR="+filepath.Join(r.dir, "t"))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if err != nil {
		code = -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
	}
	dec := json.NewDecoder(&so)
	for {
		var x resultJSON
		if dec.Decode(&x) != nil {
			break
		}
		out = append(out, x)
	}
	return out, se.String(), code
}

// confirm replays a violation; it counts only if the real build misbehaves too.
func (r *Replayer) confirm(v *Violation) {
	if r.err != nil {
		v.Native = r.err.Error()
		return
	}
	c := caseJSON{v.Harness, v.Tier, v.Values}
	bin := r.bin
	if v.Kind == "race" {
		if r.race == "" {
			var err error
			if r.race, err = r.build("replay-race", "-race"); err != nil {
				v.Native = err.Error()
				return
			}
		}
		bin = r.race
	}
	tries := 1
	if v.Kind == "race" {
		tries = 10
	}
	for i := 0; i < tries && !v.OK; i++ {
		out, se, code := r.exec(bin, c, 60*time.Second)
		switch {
		case strings.Contains(se, "DATA RACE"):
			v.OK, v.Native = true, "data race reported by the race detector"
		case len(out) == 1:
			v.Native = out[0].Kind + ": " + out[0].Msg
			switch out[0].Kind {
			case "assert", "panic", "hang":
				v.OK = true
			}
			if out[0].Diverged != "" {
				v.Native += " (replay diverged: " + out[0].Diverged + ")"
			}
		case code != 0:
			v.OK = true
			line := se
			if i := strings.Index(line, "\n"); i > 0 {
				line = line[:i]
			}
			v.Native = fmt.Sprintf("process ended with status %d: %s", code, line)
			if code == 9 {
				v.OK = false
			}
		}
	}
}

// validate replays path witnesses and compares what the real build shows with the executor's prediction.
func (r *Replayer) validate(ex *Explorer) (agree, total int, bad []string, badW []*Violation) {
	if r.err != nil {
		return 0, 0, []string{r.err.Error()}, nil
	}
	if len(ex.Wit) == 0 {
		return
	}
	var cs []caseJSON
	for _, w := range ex.Wit {
		cs = append(cs, caseJSON{w.Harness, w.Tier, w.Values})
	}
	out, se, _ := r.exec(r.bin, cs, 5*time.Minute)
	total = len(cs)
	for i, w := range ex.Wit {
		if i >= len(out) {
			bad = append(bad, "no result: "+firstLine(se))
			break
		}
		o := out[i]
		ok := o.Kind == "done" && o.Diverged == "" && len(o.Shows) == len(w.Shows)
		for j := 0; ok && j < len(w.Shows); j++ {
			ok = jsonStr(w.Shows[j][1]) == o.Shows[j][1] && w.Shows[j][0] == o.Shows[j][0]
		}
		if ok {
			agree++
		} else if len(bad) < 3 {
			w.Kind, w.Msg = o.Kind, o.Msg
			badW = append(badW, w)
			bad = append(bad, fmt.Sprintf("executor %q, real %s %s %q %s", w.Shows, o.Kind, o.Msg, o.Shows, o.Diverged))
		}
	}
	return
}

// jsonStr is the value of s after a trip through JSON (which replaces invalid UTF-8).
func jsonStr(s string) string {
	b, _ := json.Marshal(s)
	var o string
	json.Unmarshal(b, &o)
	return o
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
