package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

// initPrefixes lists the packages whose initialisers are executed.
var initPrefixes = []string{modPath, "errors", "io", "bufio", "bytes", "strings", "strconv", "unicode", "unicode/utf8", "unicode/utf16", "sort", "slices", "fmt", "regexp", "regexp/syntax", "path", "path/filepath", "io/fs", "internal/oserror", "text/template/parse", "math", "maps", "internal/stringslite", "internal/itoa", "internal/filepathlite", "flag", "internal/fmtsort", "internal/strconv",
	"math/bits", "text/tabwriter", "container/list", "container/heap", "container/ring", "hash", "hash/fnv", "hash/crc32", "encoding/hex", "encoding/base64", "encoding/binary", "html", "cmp", "iter", "log", "log/internal", "context", "path", "math/rand", "internal/bisect", "text/scanner", "go/token"}

type Loaded struct {
	prog    *ssa.Program
	h       *ssa.Package
	models  *ssa.Package
	runInit map[*ssa.Package]bool
	initP   []*ssa.Package
	extra   []*ssa.Package
	embeds  map[string]string // contents of embedded files by global
	files   int
	dur     time.Duration
}

// overlayFiles maps virtual paths in the repository to harness sources.
func overlayFiles() map[string]string {
	r := map[string]string{}
	for _, d := range []string{"nd", "models", "h", "replay"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		for _, f := range fs {
			r[filepath.Join(repoDir, "zzverif", d, filepath.Base(f))] = f
		}
	}
	for v, f := range program() {
		r[v] = f
	}
	return r
}

func goEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=")
}

func load() (*Loaded, error) {
	t0 := time.Now()
	ov := map[string][]byte{}
	for v, f := range overlayFiles() {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: goEnv()}
	pk, err := packages.Load(cfg, modPath+"/zzverif/models", modPath+"/zzverif/h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load: %s", strings.Join(errs, "; "))
	}
	embeds := map[string]string{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			embeddedFiles(p, embeds)
		}
	})
	prog, pkgs := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	l := &Loaded{prog: prog, embeds: embeds, runInit: map[*ssa.Package]bool{}}
	ok := map[string]bool{}
	for _, p := range initPrefixes {
		ok[p] = true
	}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		if ok[path] || strings.HasPrefix(path, modPath) {
			l.runInit[p] = true
		}
	}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		switch p.Pkg.Path() {
		case modPath + "/zzverif/h":
			l.h = p
		case modPath + "/zzverif/models":
			l.models = p
		}
		l.initP = append(l.initP, p)
	}
	l.dur = time.Since(t0)
	return l, nil
}

// embeddedFiles finds the variables of a package that hold the content of one embedded file.
func embeddedFiles(p *packages.Package, out map[string]string) {
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for _, doc := range []*ast.CommentGroup{g.Doc, v.Doc} {
					if doc == nil || len(v.Names) != 1 {
						continue
					}
					for _, c := range doc.List {
						if n, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
							if b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(n))); err == nil {
								out[p.PkgPath+"."+v.Names[0].Name] = string(b)
							}
						}
					}
				}
			}
		}
	}
}

func (l *Loaded) explorer(harness string, tier int) *Explorer {
	f := l.h.Func(harness)
	if f == nil {
		for _, p := range l.initP {
			if g := p.Func(harness); g != nil {
				f = g
			}
		}
	}
	return &Explorer{tier: tier, harness: harness, prog: l.prog, entry: f, models: l.models, embeds: l.embeds, initPkgs: l.initP, runInit: l.runInit,
		nwork: runtime.NumCPU(), certify: true, solverCmd: []string{"z3-new", "-in"}, maxViol: 20}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		rc := checkMain(os.Args[2:])
		cleanProgram()
		os.Exit(rc)
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		rc := replayMain(os.Args[2])
		cleanProgram()
		os.Exit(rc)
	}
	fs := flag.NewFlagSet("symgo", flag.ExitOnError)
	fs.StringVar(&repoDir, "repo", repoDir, "")
	fs.StringVar(&verifDir, "verif", verifDir, "")
	hs := fs.String("h", "", "harnesses")
	tier := fs.Int("tier", 0, "")
	trace := fs.Bool("trace", false, "")
	nocert := fs.Bool("nocert", false, "")
	nw := fs.Int("j", runtime.NumCPU(), "")
	budget := fs.Duration("t", 10*time.Minute, "")
	nat := fs.Bool("native", false, "replay")
	fs.Parse(os.Args[1:])
	l, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(9)
	}
	fmt.Fprintln(os.Stderr, "loaded in", l.dur)
	defer cleanProgram()
	var rp *Replayer
	for _, h := range strings.Split(*hs, ",") {
		ex := l.explorer(h, *tier)
		if ex.entry == nil {
			fmt.Println("no harness", h)
			continue
		}
		ex.trace = *trace
		ex.nwork = *nw
		ex.certify = !*nocert
		ex.deadline = time.Now().Add(*budget)
		ex.Run()
		ex.print()
		if *nat {
			if rp == nil {
				rp = newReplayer()
				defer rp.cleanup()
			}
			for _, v := range ex.Viol {
				rp.confirm(v)
				fmt.Printf("   native: %v %s\n", v.OK, v.Native)
			}
			agree, total, bad, _ := rp.validate(ex)
			fmt.Printf("   witnesses replayed natively: %d/%d agree %v\n", agree, total, bad)
		}
	}
}

func (ex *Explorer) print() {
	fmt.Printf("== %s: wall %.1fs paths %v forks %d steps %d (max %d) asserts %d\n", ex.harness, ex.Wall.Seconds(), ex.Paths, ex.forks.Load(), ex.Steps, ex.MaxPath, ex.Asserts)
	fmt.Printf("   solver: %d queries (%d sat %d unsat %d unknown, %d cached) %.1fs, certs %d %v\n", ex.Queries, ex.Sat, ex.Unsat, ex.Unknown, ex.CacheHit, ex.SolverTime.Seconds(), ex.Cert, ex.CertFail)
	fmt.Printf("   covers %v\n", ex.Covers)
	for _, k := range sortedKeys(ex.Incompl) {
		fmt.Printf("   INCOMPLETE %d x %s\n", ex.Incompl[k], k)
	}
	for _, v := range ex.Viol {
		b, _ := json.Marshal(v.Shows)
		fmt.Printf("   VIOL %s: %s %s known=%v\n", v.Kind, v.Msg, b, v.Known)
	}
}

var _ = exec.Command
