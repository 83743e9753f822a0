package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// A program cannot be imported, so that cmd/generate is made available to harnesses as package zzverif/gencmd: its current
// source with another package name, an exported main, and calls of os.Exit and log.Fatal replaced by nd.Exit and its like,
// which end the call of Main.

var (
	programOnce  sync.Once
	programDir   string
	programFiles = map[string]string{}
)

func program() map[string]string {
	programOnce.Do(func() {
		src, _ := filepath.Glob(filepath.Join(repoDir, "cmd/generate/*.go"))
		for _, f := range src {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			if b, err = asPackage(f, b); err != nil {
				continue
			}
			if programDir == "" {
				if programDir, err = os.MkdirTemp("", "symgo-prog"); err != nil {
					return
				}
				os.Chmod(programDir, 0o755)
			}
			out := filepath.Join(programDir, filepath.Base(f))
			if os.WriteFile(out, b, 0o644) == nil {
				programFiles[filepath.Join(repoDir, "zzverif/gencmd", filepath.Base(f))] = out
			}
		}
		if b := constants(); programDir != "" {
			out := filepath.Join(programDir, "consts.go")
			if os.WriteFile(out, b, 0o644) == nil {
				programFiles[filepath.Join(repoDir, "zz_verif_consts.go")] = out
			}
		}
	})
	return programFiles
}

var maskName = regexp.MustCompile(`^ngx.*Conf`)

// constants is a file of the package that tells the values of its unexported masks.
func constants() []byte {
	var w bytes.Buffer
	w.WriteString("package crossplane\n\nvar ZZConsts = map[string]uint64{\n")
	src, _ := filepath.Glob(filepath.Join(repoDir, "*.go"))
	for _, name := range src {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
		if err != nil || strings.HasSuffix(name, "_test.go") {
			continue
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if maskName.MatchString(n.Name) {
						w.WriteString("\"" + n.Name + "\": uint64(" + n.Name + "),\n")
					}
				}
			}
		}
	}
	w.WriteString("}\n")
	return w.Bytes()
}

func cleanProgram() {
	if programDir != "" {
		os.RemoveAll(programDir)
	}
}

func asPackage(name string, b []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, b, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	f.Name.Name = "gencmd"
	names := map[string]string{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		n := filepath.Base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		if p == "os" || p == "log" {
			names[n] = p
		}
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			if n.Name.Name == "main" && n.Recv == nil {
				n.Name.Name = "Main"
			}
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			switch names[x.Name] + "." + n.Sel.Name {
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
				x.Name, used = "zznd", true
			}
		}
		return true
	})
	var w bytes.Buffer
	if err := format.Node(&w, fset, f); err != nil {
		return nil, err
	}
	s := w.String()
	if used {
		at := strings.Index(s, "\npackage gencmd\n") + len("\npackage gencmd\n")
		s = s[:at] + "\nimport zznd \"" + modPath + "/zzverif/nd\"\n" + s[at:]
		for n, p := range names {
			if p == "os" {
				s += "\nvar _ = " + n + ".Getpid\n"
			} else {
				s += "\nvar _ = " + n + ".Println\n"
			}
		}
	}
	return []byte(s), nil
}
