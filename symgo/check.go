package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// harnessReport is what one harness contributes to the evidence of a property.
type harnessReport struct {
	Harness    string         `json:"harness"`
	Bounds     string         `json:"bounds,omitempty"`
	Paths      map[string]int `json:"paths"`
	Forks      int64          `json:"forks"`
	Steps      int64          `json:"instructions"`
	Asserts    int64          `json:"assertions_decided"`
	Inputs     int            `json:"symbolic_inputs_max"`
	Queries    map[string]int `json:"solver_queries"`
	Certs      int            `json:"solver_certified_segments"`
	CertFail   []string       `json:"certificate_failures,omitempty"`
	SolverS    float64        `json:"solver_s"`
	WallS      float64        `json:"wall_s"`
	Covers     map[string]int `json:"reached"`
	Incomplete map[string]int `json:"bound_reduced_by,omitempty"`
	Complete   bool           `json:"complete_within_bounds"`
	Witnesses  string         `json:"witnesses_replayed_natively"`
	WitBad     []string       `json:"witness_disagreements,omitempty"`
}

type finding struct{ property, id, text string }

func loadFindings() []finding {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		fs := strings.Fields(strings.TrimPrefix(l, "finding:"))
		if len(fs) < 2 {
			continue
		}
		r = append(r, finding{strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "id="), strings.Join(fs[2:], " ")})
	}
	return r
}

func checkMain(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo check PROPERTY [quick|thorough]")
		return 2
	}
	prop, tierName := args[0], "quick"
	if len(args) > 1 {
		tierName = args[1]
	}
	tier, total := 0, 420*time.Second
	if tierName == "thorough" {
		tier, total = 1, 780*time.Second
	}
	if s := os.Getenv("SYMGO_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			total = time.Duration(n) * time.Second
		}
	}
	if d := os.Getenv("SYMGO_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("SYMGO_VERIF"); d != "" {
		verifDir = d
	}
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	l, err := load()
	if err != nil {
		fmt.Println("cannot load the code under test:", err)
		return 2
	}
	rp := newReplayer()
	defer rp.cleanup()
	if rp.err != nil {
		fmt.Println("cannot build the code under test:", rp.err)
		return 2
	}

	var names []string
	for n := range l.h.Members {
		if strings.HasPrefix(n, prop+"_") && l.h.Func(n) != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	known := map[string]finding{}
	for _, f := range loadFindings() {
		if f.property == prop {
			known[f.id] = f
		}
	}
	bounds := harnessDocs()

	var reports []*harnessReport
	var viols, unrep []*Violation
	knownHit := map[string]bool{}
	funcs := map[string]int64{}
	var samples []any
	states, trans, validated, outside := 0, int64(0), 0, 0
	for i, n := range names {
		left := total - time.Since(t0)
		share := left / time.Duration(len(names)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		ex := l.explorer(n, tier)
		ex.deadline = time.Now().Add(share)
		ex.Run()
		if os.Getenv("SYMGO_VERBOSE") != "" {
			ex.print()
		}
		r := &harnessReport{Harness: n, Bounds: bounds[n], Paths: ex.Paths, Forks: ex.forks.Load(), Steps: ex.Steps, Asserts: ex.Asserts, Inputs: ex.NDMax,
			Queries: map[string]int{"total": ex.Queries, "sat": ex.Sat, "unsat": ex.Unsat, "unknown": ex.Unknown, "cached": ex.CacheHit}, Certs: ex.Cert,
			CertFail: ex.CertFail, SolverS: round(ex.SolverTime.Seconds()), WallS: round(ex.Wall.Seconds()), Covers: ex.Covers, Incomplete: ex.Incompl}
		r.Complete = len(ex.Incompl) == 0 && len(ex.CertFail) == 0
		reports = append(reports, r)
		for f, s := range ex.Funcs {
			funcs[f] += s
		}
		confirmed := 0
		for _, v := range ex.Viol {
			if confirmed >= 5 {
				break
			}
			isKnown := false
			for _, k := range v.Known {
				if _, ok := known[k]; ok {
					isKnown = true
					knownHit[k] = true
				}
			}
			if isKnown {
				continue
			}
			rp.confirm(v)
			if v.OK {
				confirmed++
				viols = append(viols, v)
			} else {
				unrep = append(unrep, v)
			}
		}
		agree, tot, bad, badW := rp.validate(ex)
		r.Witnesses = fmt.Sprintf("%d of %d agree", agree, tot)
		r.WitBad = bad
		validated += agree
		for _, w := range badW {
			// the solver's values make the real build misbehave where the executor does not: that counts
			rp.confirm(w)
			if w.OK && (w.Kind == "assert" || w.Kind == "panic") {
				viols = append(viols, w)
			}
		}
		for p, k := range ex.Paths {
			switch p {
			case "unsat", "assume":
				outside += k
			default:
				states += k
			}
		}
		trans += ex.Steps
		for i, w := range ex.Wit {
			if i < 3 {
				samples = append(samples, map[string]any{"harness": n, "values": w.Values, "shows": w.Shows})
			}
		}
	}

	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replay-"+prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	var fl []string
	for f := range funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			fl = append(fl, strings.ReplaceAll(f, modPath, "crossplane"))
		}
	}
	sort.Strings(fl)
	lib := 0
	for f := range funcs {
		if !strings.Contains(f, modPath) {
			lib++
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tierName, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"explanation":                   "states: path classes of inputs executed symbolically to their end (each stands for every input satisfying its path condition); transitions: SSA instructions executed; traces: witnesses of path classes replayed on the native build with the predicted outcome",
			"harnesses":                     reports,
			"functions_encoded":             fl,
			"library_functions_encoded":     lib,
			"discarded_by_assumptions":      outside,
			"unreproduced_counterexamples":  unrep,
			"solver":                        "z3 (bit-vectors), one process per worker",
			"workers":                       runtime.NumCPU(),
		},
		"assumptions": []string{
			"inputs are within the bounds stated per harness; nothing is claimed outside them",
			"the executor follows the semantics of Go SSA (golang.org/x/tools/go/ssa); it is cross-checked by replaying path witnesses on the native build",
			"library models listed in DESIGN.md (sync.Pool, errors.As/Is, sort.Slice, os and file-system stand-ins, encoding/json, template execution) stand in for the real functions where used",
		},
		"wall_s": round(time.Since(t0).Seconds()), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)

	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, k, known[k].text)
	}
	for _, r := range reports {
		c := "complete"
		if !r.Complete {
			c = fmt.Sprintf("bound reduced: %v %v", r.Incomplete, r.CertFail)
		}
		fmt.Printf("%s: paths %v, %d asserts, %d solver queries, %.1f s, witnesses %s, %s\n", r.Harness, r.Paths, r.Asserts, r.Queries["total"], r.WallS, r.Witnesses, c)
		for _, s := range r.WitBad {
			fmt.Println("   witness disagreement:", s)
		}
	}
	for _, v := range unrep {
		fmt.Printf("not reproduced natively (not reported): %s %s %s %v | %s\n", v.Harness, v.Kind, v.Msg, v.Shows, v.Native)
	}
	if len(viols) == 0 {
		return 0
	}
	for i, v := range viols {
		f := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", prop, i))
		v.Replay = f
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("%s %s: %s\n", v.Harness, v.Kind, v.Msg)
		for _, s := range v.Shows {
			fmt.Printf("   %s = %q\n", s[0], s[1])
		}
		fmt.Println("   native replay:", v.Native)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, viols[0].Replay)
	return 1
}

func round(x float64) float64 { return float64(int(x*10+0.5)) / 10 }

// harnessDocs maps harness functions to the comment above them, which states their bounds.
func harnessDocs() map[string]string {
	r := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", "h", "*.go"))
	for _, f := range fs {
		data, _ := os.ReadFile(f)
		var doc []string
		for _, l := range strings.Split(string(data), "\n") {
			switch {
			case strings.HasPrefix(l, "// "):
				doc = append(doc, strings.TrimPrefix(l, "// "))
			case strings.HasPrefix(l, "func ") && len(doc) > 0:
				n := strings.TrimPrefix(l, "func ")
				if i := strings.IndexByte(n, '('); i > 0 {
					r[n[:i]] = strings.Join(doc, " ")
				}
				doc = nil
			default:
				doc = nil
			}
		}
	}
	return r
}

// replayMain runs one recorded counterexample against the real build.
func replayMain(file string) int {
	if d := os.Getenv("SYMGO_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("SYMGO_VERIF"); d != "" {
		verifDir = d
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := newReplayer()
	defer rp.cleanup()
	if rp.err != nil {
		fmt.Println(rp.err)
		return 2
	}
	v.OK, v.Native = false, ""
	rp.confirm(&v)
	fmt.Printf("%s: %v: %s\n", v.Harness, v.OK, v.Native)
	if v.OK {
		return 1
	}
	return 0
}
