package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Constants of the code under test: harnesses offer them as sizes, counts and names, so that code which
// behaves differently from some size on, or for some name, is reached although the bounds are small.
type mined struct {
	ints   []int
	strs   []string
	tool   []string // of the generator
	tables []string
}

var mineOnce sync.Once
var mineRes mined

func (m *M) mined() *mined {
	mineOnce.Do(func() { mineRes = mineConsts(m.ex.prog) })
	return &mineRes
}

func mineConsts(prog *ssa.Program) mined {
	ints := map[int]bool{}
	strs := map[string]bool{}
	tables := map[string]bool{}
	tool := map[string]bool{}
	for f := range ssautil.AllFunctions(prog) {
		p := f.Pkg
		for g := f; p == nil && g != nil; g = g.Parent() {
			p = g.Pkg
		}
		if p == nil || p.Pkg.Path() != modPath && p.Pkg.Path() != modPath+"/internal/generator" {
			continue
		}
		file := filepath.Base(prog.Fset.Position(f.Pos()).Filename)
		init := f.Name() == "init" || f.Synthetic != ""
		if strings.Contains(file, "_directives") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				into := strs
				if p.Pkg.Path() != modPath {
					into = tool // the names there are not those of configurations
				}
				mineArith(ins, ints)
				mineRepeats(ins, ints)
				if init {
					if st, ok := ins.(*ssa.Store); ok {
						if _, ok := st.Addr.(*ssa.Global); ok {
							mineInt(st.Val, ints)
						}
					}
					mu, ok := ins.(*ssa.MapUpdate)
					if !ok {
						continue
					}
					// the keys of package-level maps
					if c, ok := mu.Key.(*ssa.Const); ok && p.Pkg.Path() == modPath && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); strings.Contains(filepath.Base(prog.Fset.Position(mu.Pos()).Filename), "_directives") {
							tables[s] = true
						} else if len(s) <= 40 {
							strs[s] = true
						}
					}
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch bt, _ := c.Type().Underlying().(*types.Basic); {
					case bt != nil && bt.Info()&types.IsInteger != 0 && c.Value.Kind() == constant.Int:
						if n, ok := constant.Int64Val(c.Value); ok && n >= 1 && n <= 70000 {
							ints[int(n)] = true
							if bo, ok := ins.(*ssa.BinOp); ok && bo.Op == token.SHL && n < 16 {
								ints[1<<n] = true
							}
						}
					case c.Value.Kind() == constant.String:
						s := constant.StringVal(c.Value)
						if len(s) >= 1 && len(s) <= 40 && !strings.ContainsAny(s, "%\n") {
							into[s] = true
						}
					}
				}
			}
		}
	}
	// the same constants as named package-level ones are folded into their uses; sizes around each matter
	r := mined{}
	all := map[int]bool{}
	for n := range ints {
		for _, k := range []int{n - 1, n, n + 1} {
			if k >= 0 {
				all[k] = true
			}
		}
	}
	if os.Getenv("SYMGO_MINED") != "" {
		fmt.Fprintln(os.Stderr, "mined", ints)
	}
	for n := range all {
		r.ints = append(r.ints, n)
	}
	for s := range strs {
		r.strs = append(r.strs, s)
	}
	sort.Ints(r.ints)
	for s := range tables {
		r.tables = append(r.tables, s)
	}
	for s := range tool {
		r.tool = append(r.tool, s)
	}
	sort.Strings(r.tables)
	sort.Strings(r.tool)
	sort.Strings(r.strs)
	return r
}

func mineInt(v ssa.Value, ints map[int]bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		if n, ok := constant.Int64Val(c.Value); ok && n >= 1 && n <= 70000 {
			ints[int(n)] = true
		}
	}
}

// mineArith adds the sizes at which sums of narrow numbers wrap around.
func mineArith(ins ssa.Instruction, ints map[int]bool) {
	var t types.Type
	switch ins := ins.(type) {
	case *ssa.BinOp:
		if ins.Op != token.ADD && ins.Op != token.SUB && ins.Op != token.MUL && ins.Op != token.SHL {
			return
		}
		t = ins.Type()
	case *ssa.Convert:
		if b, ok := ins.X.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			return
		}
		t = ins.Type()
	default:
		return
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Int8:
		ints[128], ints[256] = true, true
	case types.Uint8:
		ints[256] = true
	case types.Int16:
		ints[1<<15], ints[1<<16] = true, true
	case types.Uint16:
		ints[1<<16] = true
	}
}

var repeats = regexp.MustCompile(`\{(\d+)(?:,(\d*))?\}`)

// mineRepeats adds the counts of regular expressions.
func mineRepeats(ins ssa.Instruction, ints map[int]bool) {
	for _, op := range ins.Operands(nil) {
		if op == nil || *op == nil {
			continue
		}
		if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			for _, m := range repeats.FindAllStringSubmatch(constant.StringVal(c.Value), -1) {
				for _, d := range m[1:] {
					if n, err := strconv.Atoi(d); err == nil && n >= 1 && n <= 70000 {
						ints[n] = true
					}
				}
			}
		}
	}
}
