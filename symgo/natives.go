package main

import (
	"fmt"
	"go/types"
	"strings"
)

const modPath = "github.com/nginxinc/nginx-go-crossplane"
const ndPkg = modPath + "/zzverif/nd"
const modelsPkg = modPath + "/zzverif/models"

// redirects sends calls of a function to a model written in Go (package models of the harness overlay).
var redirects = map[string]string{
	"(*sync.Pool).Get":                       "PoolGet",
	"(*sync.Pool).Put":                       "PoolPut",
	"errors.As":                              "ErrorsAs",
	"errors.Is":                              "ErrorsIs",
	"sort.Slice":                             "SortSlice",
	"sort.SliceStable":                       "SortSlice",
	"os.Mkdir":                               "OsMkdir",
	"os.MkdirAll":                            "OsMkdirAll",
	"os.Create":                              "OsCreate",
	"os.Open":                                "OsOpen",
	"os.OpenFile":                            "OsOpenFile",
	"os.Getwd":                               "OsGetwd",
	"os.ReadFile":                            "OsReadFile",
	"os.WriteFile":                           "OsWriteFile",
	"os.Stat":                                "OsStat",
	"os.Lstat":                               "OsStat",
	"os.ReadDir":                             "OsReadDir",
	"os.Symlink":                             "OsSymlink",
	"os.Remove":                              "OsRemove",
	"os.Rename":                              "OsRename",
	"(*os.File).Write":                       "FileWrite",
	"(*os.File).WriteString":                 "FileWriteString",
	"(*os.File).Read":                        "FileRead",
	"(*os.File).Close":                       "FileClose",
	"(*os.File).Sync":                        "FileSync",
	"(*os.File).Chmod":                       "FileChmod",
	"(*os.File).Name":                        "FileName",
	"(*os.File).Stat":                        "FileStat",
	"(*os.File).Readdirnames":                "FileReaddirnames",
	"encoding/json.Marshal":                  "JSONMarshal",
	"encoding/json.MarshalIndent":            "JSONMarshalIndent",
	"encoding/json.Unmarshal":                "JSONUnmarshal",
	"encoding/json.Indent":                   "JSONIndent",
	"encoding/json.Valid":                    "JSONValid",
	"encoding/json.NewEncoder":               "JSONNewEncoder",
	"(*encoding/json.Encoder).Encode":        "JSONEncode",
	"(*encoding/json.Encoder).SetEscapeHTML": "JSONSetEscapeHTML",
	"(*encoding/json.Encoder).SetIndent":     "JSONSetIndent",
	"encoding/json.NewDecoder":               "JSONNewDecoder",
	"(*encoding/json.Decoder).Decode":        "JSONDecode",
	"(*fmt.pp).printValue":                   "FmtPrintValue",
	"(*sync.Map).Load":                       "SyncMapLoad",
	"(*sync.Map).Swap":                       "SyncMapSwap",
	"(*sync.Map).Store":                      "SyncMapStore",
	"(*sync.Map).LoadOrStore":                "SyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":              "SyncMapLoadAndDelete",
	"(*sync.Map).Delete":                     "SyncMapDelete",
	"(*sync.Map).Clear":                      "SyncMapClear",
	"(*sync.Map).Range":                      "SyncMapRange",
	"time.Now":                               "TimeNow",
	"time.Since":                             "TimeSince",
	"time.Sleep":                             "TimeSleep",
	"os.CreateTemp":                          "OsCreateTemp",
	"os.MkdirTemp":                           "OsMkdirTemp",
	"os.TempDir":                             "OsTempDir",
	"os.RemoveAll":                           "OsRemoveAll",
	"os.Chmod":                               "OsChmod",
	"os.Truncate":                            "OsTruncate",
	"os.Getenv":                              "OsGetenv",
	"os.LookupEnv":                           "OsLookupEnv",
	"os.Getpid":                              "OsGetpid",
	"(*os.File).Truncate":                    "FileTruncate",
	"(*os.File).Seek":                        "FileSeek",
	"(*os.File).ReadAt":                      "FileReadAt",
	"(*os.File).ReadFrom":                    "FileReadFrom",
	"(*os.File).WriteTo":                     "FileWriteTo",
	"(*os.File).ReadDir":                     "FileReadDir",
	"reflect.DeepEqual":                      "ReflectDeepEqual",
	"fmt.Println":                            "FmtPrintln",
	"fmt.Printf":                             "FmtPrintf",
	"(*text/template.Template).Execute":      "TemplateExecute",
	"(*html/template.Template).Execute":      "HTMLTemplateExecute",
	"(*html/template.Template).Parse":        "HTMLTemplateParse",
	"html/template.New":                      "HTMLTemplateNew",
	"html/template.Must":                     "HTMLTemplateMust",
	"(*html/template.Template).Funcs":        "HTMLTemplateFuncs",
	"(*text/template.Template).Parse":        "TextTemplateParse",
	"text/template.New":                      "TextTemplateNew",
	"text/template.Must":                     "TextTemplateMust",
	"(*text/template.Template).Funcs":        "TextTemplateFuncs",
}

// okGlobals may be read although the initialiser of their package is not executed: their zero value is right.
var okGlobals = map[string]bool{
	"internal/cpu.X86":                  true,
	"internal/bytealg.MaxLen":           true,
	"internal/godebug.empty":            true,
	"os.ErrProcessDone":                 true,
	"os.Stdout":                         true,
	"os.Stderr":                         true,
	"os.Args":                           true,
	"internal/race.dummy":               true,
	"sync/atomic.dummy":                 true,
	"internal/poll.ErrDeadlineExceeded": true,
}

// aliasGlobals are variables that are initialised to another variable (which they are never assigned apart from).
var aliasGlobals = map[string][2]string{
	"os.ErrNotExist":   {"internal/oserror", "ErrNotExist"},
	"os.ErrExist":      {"internal/oserror", "ErrExist"},
	"os.ErrPermission": {"internal/oserror", "ErrPermission"},
	"os.ErrClosed":     {"internal/oserror", "ErrClosed"},
	"os.ErrInvalid":    {"internal/oserror", "ErrInvalid"},
}

type natFn = func(m *M, args []Value) Value
type natCtlFn = func(m *M, g *G, args []Value, done func(Value)) action

func intV(i int) Value { return Value{n: uint64(int64(i))} }

func tuple(vs ...Value) Value { return Value{r: &Agg{vs}} }

func (m *M) sbytes(s *Str) []*Term { return m.strTerms(s) }

// indexByte finds the first occurrence, forking per position.
func (m *M) indexByte(b []*Term, c *Term) Value {
	for i, t := range b {
		if m.branch(m.ts.Eq(t, c)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (m *M) index(s, sub []*Term) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		ok := true
		for j := range sub {
			if !m.branch(m.ts.Eq(s[i+j], sub[j])) {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func allConc(b []*Term) bool {
	for _, t := range b {
		if t.op != OConst {
			return false
		}
	}
	return true
}

func (m *M) count(s []*Term, c *Term) Value {
	n := 0
	for _, t := range s {
		if m.branch(m.ts.Eq(t, c)) {
			n++
		}
	}
	return intV(n)
}

func (m *M) bterm(v Value) *Term { return m.term(v, kind{w: 8}) }

var natives map[string]natFn
var nativesCtl map[string]natCtlFn

func init() {
	strIdx := func(m *M, a []Value) Value {
		s, sub := str(a[0]), str(a[1])
		if s.b == nil && sub.b == nil {
			return intV(strings.Index(s.s, sub.s))
		}
		return intV(m.index(m.sbytes(s), m.sbytes(sub)))
	}
	bytesIdx := func(m *M, a []Value) Value { return intV(m.index(m.bytesOf(a[0]), m.bytesOf(a[1]))) }
	idxByteStr := func(m *M, a []Value) Value {
		s := str(a[0])
		if s.b == nil && a[1].r == nil {
			return intV(strings.IndexByte(s.s, byte(a[1].n)))
		}
		return m.indexByte(m.sbytes(s), m.bterm(a[1]))
	}
	idxByte := func(m *M, a []Value) Value { return m.indexByte(m.bytesOf(a[0]), m.bterm(a[1])) }
	ld := func(m *M, a []Value) Value {
		o := a[0].r.(*Obj)
		m.acquire(o)
		return o.cells[a[0].n]
	}
	st := func(m *M, a []Value) Value {
		o := a[0].r.(*Obj)
		m.release(o)
		m.write(o, int(a[0].n), a[1])
		return Value{}
	}
	add := func(k kind) natFn {
		return func(m *M, a []Value) Value {
			o := a[0].r.(*Obj)
			m.acquire(o)
			m.release(o)
			v := Value{n: norm(o.cells[a[0].n].n+a[1].n, k)}
			m.write(o, int(a[0].n), v)
			return v
		}
	}
	cas := func(m *M, a []Value) Value {
		o := a[0].r.(*Obj)
		m.acquire(o)
		m.release(o)
		c := o.cells[a[0].n]
		if c.n == a[1].n && c.r == a[1].r {
			m.write(o, int(a[0].n), a[2])
			return Value{n: 1}
		}
		return Value{}
	}
	swap := func(m *M, a []Value) Value {
		o := a[0].r.(*Obj)
		m.acquire(o)
		m.release(o)
		c := o.cells[a[0].n]
		m.write(o, int(a[0].n), a[1])
		return c
	}
	id := func(m *M, a []Value) Value { return a[0] }
	nop := func(m *M, a []Value) Value { return Value{} }
	natives = map[string]natFn{
		"internal/bytealg.IndexByteString": idxByteStr,
		"internal/bytealg.IndexByte":       idxByte,
		"internal/bytealg.IndexString":     strIdx,
		"internal/bytealg.Index":           bytesIdx,
		"strings.Index":                    strIdx,
		"bytes.Index":                      bytesIdx,
		"strings.IndexByte":                idxByteStr,
		"internal/stringslite.Index":       strIdx,
		"internal/stringslite.IndexByte":   idxByteStr,
		"bytes.IndexByte":                  idxByte,
		"internal/bytealg.CountString":     func(m *M, a []Value) Value { return m.count(m.sbytes(str(a[0])), m.bterm(a[1])) },
		"internal/bytealg.Count":           func(m *M, a []Value) Value { return m.count(m.bytesOf(a[0]), m.bterm(a[1])) },
		"internal/bytealg.Equal": func(m *M, a []Value) Value {
			return boolVal(m.strEq(m.strOfBytes(a[0]), m.strOfBytes(a[1])))
		},
		"bytes.Equal": func(m *M, a []Value) Value {
			return boolVal(m.strEq(m.strOfBytes(a[0]), m.strOfBytes(a[1])))
		},
		"internal/bytealg.Compare": func(m *M, a []Value) Value {
			return intV(m.strCmp(m.strOfBytes(a[0]), m.strOfBytes(a[1])))
		},
		"internal/bytealg.CompareString": func(m *M, a []Value) Value { return intV(m.strCmp(str(a[0]), str(a[1]))) },
		"strings.Compare":                func(m *M, a []Value) Value { return intV(m.strCmp(str(a[0]), str(a[1]))) },
		"cmp.Compare":                    nil,
		"strings.Clone":                  id,
		"internal/stringslite.Clone":     id,
		"internal/bytealg.MakeNoZero": func(m *M, a []Value) Value {
			n := int(m.intVal(a[0]))
			c := roundupsize(n, true)
			return Value{r: &Slice{obj: m.newObj(c, "bytes"), len: n, cap: c, esz: 1}}
		},
		"internal/reflectlite.TypeOf": func(m *M, a []Value) Value {
			rt := m.p.rtype(m.p.byPath["internal/reflectlite"].Type("rtype").Type())
			return Value{r: &Iface{rt, Value{r: &Agg{make([]Value, 1)}}}}
		},
		"(internal/reflectlite.rtype).Elem": func(m *M, a []Value) Value {
			rt := m.p.rtype(m.p.byPath["internal/reflectlite"].Type("rtype").Type())
			return Value{r: &Iface{rt, Value{r: &Agg{make([]Value, 1)}}}}
		},
		"internal/abi.NoEscape": id,
		"internal/abi.Escape":   id,
		"runtime.KeepAlive":     nop,
		"runtime.GC":            nop,
		"runtime.Gosched":       nop,
		"runtime.SetFinalizer":  nop,
		"runtime.NumGoroutine":  func(m *M, a []Value) Value { return intV(len(m.gs)) },
		"unicode/utf8.DecodeRuneInString": func(m *M, a []Value) Value {
			s := str(a[0])
			if s.len() == 0 {
				return tuple(Value{n: 0xFFFD}, Value{})
			}
			r, n := m.decodeRune(s, 0)
			return tuple(r, intV(n))
		},
		"unicode/utf8.DecodeRune": func(m *M, a []Value) Value {
			s := m.firstBytes(a[0], 4)
			if s.len() == 0 {
				return tuple(Value{n: 0xFFFD}, Value{})
			}
			r, n := m.decodeRune(s, 0)
			return tuple(r, intV(n))
		},
		"internal/godebug.New":                      func(m *M, a []Value) Value { return Value{r: m.newObj(16, "godebug")} },
		"(*internal/godebug.Setting).Value":         func(m *M, a []Value) Value { return Value{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"sync/atomic.LoadInt32":                     ld, "sync/atomic.LoadInt64": ld, "sync/atomic.LoadUint32": ld, "sync/atomic.LoadUint64": ld, "sync/atomic.LoadPointer": ld, "sync/atomic.LoadUintptr": ld,
		"sync/atomic.StoreInt32": st, "sync/atomic.StoreInt64": st, "sync/atomic.StoreUint32": st, "sync/atomic.StoreUint64": st, "sync/atomic.StorePointer": st, "sync/atomic.StoreUintptr": st,
		"sync/atomic.AddInt32": add(kind{w: 32, signed: true}), "sync/atomic.AddInt64": add(kind{w: 64}), "sync/atomic.AddUint32": add(kind{w: 32}), "sync/atomic.AddUint64": add(kind{w: 64}),
		"sync/atomic.CompareAndSwapInt32": cas, "sync/atomic.CompareAndSwapInt64": cas, "sync/atomic.CompareAndSwapUint32": cas, "sync/atomic.CompareAndSwapUint64": cas, "sync/atomic.CompareAndSwapPointer": cas,
		"sync/atomic.SwapInt32": swap, "sync/atomic.SwapInt64": swap, "sync/atomic.SwapUint32": swap, "sync/atomic.SwapUint64": swap, "sync/atomic.SwapPointer": swap,
		"(*sync/atomic.Value).Load":  ld,
		"(*sync/atomic.Value).Store": st,
		"(*sync/atomic.Value).Swap":  swap,
		"maps.clone": func(m *M, a []Value) Value {
			i := a[0].r.(*Iface)
			mp, _ := i.v.r.(*Map)
			if mp == nil {
				return a[0]
			}
			n := m.newMap(mp.t)
			for _, e := range mp.ents {
				if !e.dead {
					m.mapSet(n, m.mapFind(n, e.k), e.k, e.v)
				}
			}
			return Value{r: &Iface{i.t, Value{r: n}}}
		},
		"(*sync.Mutex).Unlock": mutexUnlock,
		"(*sync.Mutex).TryLock": func(m *M, a []Value) Value {
			o, i := a[0].r.(*Obj), int(a[0].n)
			if o.cells[i].n != 0 {
				return Value{}
			}
			m.acquire(o)
			m.write(o, i, Value{n: 1})
			return Value{n: 1}
		},
		"(*sync.RWMutex).Unlock": mutexUnlock,
		"(*sync.RWMutex).RUnlock": func(m *M, a []Value) Value {
			o, i := a[0].r.(*Obj), int(a[0].n)+1
			m.release(o)
			m.write(o, i, Value{n: o.cells[i].n - 1})
			return Value{}
		},
		"(*sync.WaitGroup).Add": func(m *M, a []Value) Value {
			o := a[0].r.(*Obj)
			i := int(a[0].n)
			m.release(o)
			m.write(o, i, Value{n: o.cells[i].n + a[1].n})
			if int64(o.cells[i].n) < 0 {
				m.throw(Value{r: &Iface{m.plainErr, strVal("sync: negative WaitGroup counter")}})
			}
			return Value{}
		},
		"(*sync.WaitGroup).Done": func(m *M, a []Value) Value {
			o := a[0].r.(*Obj)
			i := int(a[0].n)
			m.release(o)
			m.write(o, i, Value{n: o.cells[i].n - 1})
			return Value{}
		},

		// nondeterminism API of the harnesses
		ndPkg + ".Byte": func(m *M, a []Value) Value { return m.ndVar("byte", kind{w: 8}, nil) },
		ndPkg + ".ByteIn": func(m *M, a []Value) Value {
			return m.ndVar("byte", kind{w: 8}, a)
		},
		ndPkg + ".Bool": func(m *M, a []Value) Value {
			v := m.ndVar("bool", kind{w: 1}, nil)
			return m.boolTerm(m.ts.Eq(v.r.(*Term), m.ts.Const(1, 1)))
		},
		ndPkg + ".Uint64": func(m *M, a []Value) Value { return m.ndVar("u64", kind{w: 64}, nil) },
		ndPkg + ".Uint32": func(m *M, a []Value) Value { return m.ndVar("u32", kind{w: 32}, nil) },
		ndPkg + ".Int64":  func(m *M, a []Value) Value { return m.ndVar("i64", kind{w: 64, signed: true}, nil) },
		ndPkg + ".Str":    func(m *M, a []Value) Value { return m.ndStr(int(m.intVal(a[0])), nil) },
		ndPkg + ".StrIn":  func(m *M, a []Value) Value { return m.ndStr(int(m.intVal(a[0])), a[1:]) },
		ndPkg + ".Pick": func(m *M, a []Value) Value {
			n := int(m.intVal(a[0]))
			c := m.choose(n)
			m.nds = append(m.nds, ndRec{label: "pick", val: uint64(c), choice: true})
			return intV(c)
		},
		ndPkg + ".CodeInt": func(m *M, a []Value) Value {
			lo, hi := int(m.intVal(a[0])), int(m.intVal(a[1]))
			var c []int
			for _, n := range m.mined().ints {
				if n >= lo && n <= hi {
					c = append(c, n)
				}
			}
			if len(c) == 0 {
				panic(pathEnd{"assume", "no constant in range"})
			}
			n := c[m.choose(len(c))]
			m.nds = append(m.nds, ndRec{label: "code", val: uint64(n), choice: true})
			return intV(n)
		},
		ndPkg + ".CodeStr":  func(m *M, a []Value) Value { return m.oneOf(m.mined().strs) },
		ndPkg + ".ToolStr":  func(m *M, a []Value) Value { return m.oneOf(m.mined().tool) },
		ndPkg + ".TableStr": func(m *M, a []Value) Value { return m.oneOf(m.mined().tables) },
		ndPkg + ".Assume": func(m *M, a []Value) Value {
			m.assume(m.term(a[0], kind{isBool: true}))
			return Value{}
		},
		ndPkg + ".Cover": func(m *M, a []Value) Value {
			m.infl = append(m.infl, str(a[0]).s)
			return Value{}
		},
		ndPkg + ".Known": func(m *M, a []Value) Value {
			m.known = append(m.known, str(a[0]).s)
			n := len(m.known) - 1
			m.undoLog(func() { m.known = m.known[:n] })
			return Value{}
		},
		ndPkg + ".Show": func(m *M, a []Value) Value {
			m.shows = append(m.shows, showRec{str(a[0]).s, str(a[1])})
			n := len(m.shows) - 1
			m.undoLog(func() { m.shows = m.shows[:n] })
			return Value{}
		},
		ndPkg + ".Symbolic": func(m *M, a []Value) Value { return Value{n: 1} },
		ndPkg + ".Scratch":  func(m *M, a []Value) Value { return strVal("/scratch") },
		ndPkg + ".Tier":     func(m *M, a []Value) Value { return intV(m.ex.tier) },
		ndPkg + ".MaxSteps": func(m *M, a []Value) Value {
			m.opts.maxSteps = m.intVal(a[0])
			return Value{}
		},
		ndPkg + ".ScheduleOn": func(m *M, a []Value) Value {
			m.opts.schedule = true
			m.opts.maxPreempts = int(m.intVal(a[0]))
			m.opts.preempts = 0
			return Value{}
		},
		ndPkg + ".ScheduleOff": func(m *M, a []Value) Value {
			m.opts.schedule = false
			return Value{}
		},
		ndPkg + ".MapOrder": func(m *M, a []Value) Value {
			m.opts.mapOrder = a[0].n != 0
			return Value{}
		},
		ndPkg + ".RaceOn": func(m *M, a []Value) Value {
			m.opts.race = true
			m.opts.raceWhere = true
			m.raceOn = true
			m.tick(m.cur)
			return Value{}
		},
		ndPkg + ".Concrete": func(m *M, a []Value) Value {
			s := str(a[0])
			if s.b == nil {
				return a[0]
			}
			b := make([]byte, len(s.b))
			for i, t := range s.b {
				b[i] = byte(m.concretize(t))
			}
			return strVal(string(b))
		},
		// AllEqByte etc. decide over whole strings without forking per byte.
		ndPkg + ".EqStr": func(m *M, a []Value) Value {
			s, t := str(a[0]), str(a[1])
			if s.len() != t.len() {
				return Value{}
			}
			r := m.ts.True
			for i := 0; i < s.len(); i++ {
				r = m.ts.And(r, m.ts.Eq(m.strByte(s, i), m.strByte(t, i)))
			}
			return m.boolTerm(r)
		},
		ndPkg + ".And": func(m *M, a []Value) Value {
			k := kind{isBool: true}
			return m.boolTerm(m.ts.And(m.term(a[0], k), m.term(a[1], k)))
		},
		ndPkg + ".Or": func(m *M, a []Value) Value {
			k := kind{isBool: true}
			return m.boolTerm(m.ts.Or(m.term(a[0], k), m.term(a[1], k)))
		},
		modelsPkg + ".assignTo": func(m *M, a []Value) Value { // (err error, target any) bool
			ti := a[1].r.(*Iface)
			et := elemOf(ti.t.t)
			ei := a[0].r.(*Iface)
			p := ti.v
			if it, ok := et.Underlying().(*types.Interface); ok {
				if !m.implements(ei.t, it, et) {
					return Value{}
				}
				m.write(p.r.(*Obj), int(p.n), a[0])
				return Value{n: 1}
			}
			if m.p.rtype(et) != ei.t {
				return Value{}
			}
			n := m.p.layout(et).n
			if !isAgg(et) {
				m.write(p.r.(*Obj), int(p.n), ei.v)
			} else {
				for i, c := range aggCells(ei.v, n) {
					m.write(p.r.(*Obj), int(p.n)+i, c)
				}
			}
			return Value{n: 1}
		},
		modelsPkg + ".comparableDyn": func(m *M, a []Value) Value {
			if a[0].r == nil {
				return Value{n: 1}
			}
			return boolVal(types.Comparable(a[0].r.(*Iface).t.t))
		},
		modelsPkg + ".swapElems": func(m *M, a []Value) Value { // (slice any, i, j int)
			i, j := int(m.intVal(a[1])), int(m.intVal(a[2]))
			s := a[0].r.(*Iface).v.r.(*Slice)
			for k := 0; k < s.esz; k++ {
				x, y := s.obj.cells[s.off+i*s.esz+k], s.obj.cells[s.off+j*s.esz+k]
				m.write(s.obj, s.off+i*s.esz+k, y)
				m.write(s.obj, s.off+j*s.esz+k, x)
			}
			return Value{}
		},
		modelsPkg + ".lenOf": func(m *M, a []Value) Value {
			s, _ := a[0].r.(*Iface).v.r.(*Slice)
			if s == nil {
				return Value{}
			}
			return intV(s.len)
		},
	}
	delete(natives, "cmp.Compare")
	lock := func(m *M, g *G, a []Value, done func(Value)) action {
		if m.yield() {
			return jumped
		}
		o, i := a[0].r.(*Obj), int(a[0].n)
		if o.cells[i].n != 0 {
			act := m.block("mutex lock")
			g.ready = func(m *M) bool { return o.cells[i].n == 0 }
			return act
		}
		m.acquire(o)
		m.write(o, i, Value{n: 1})
		return next
	}
	nativesCtl = map[string]natCtlFn{
		"(*sync.Mutex).Lock": lock,
		"(*sync.RWMutex).Lock": func(m *M, g *G, a []Value, done func(Value)) action {
			o, i := a[0].r.(*Obj), int(a[0].n)
			if o.cells[i].n != 0 || o.cells[i+1].n != 0 {
				act := m.block("rwmutex lock")
				g.ready = func(m *M) bool { return o.cells[i].n == 0 && o.cells[i+1].n == 0 }
				return act
			}
			m.acquire(o)
			m.write(o, i, Value{n: 1})
			return next
		},
		"(*sync.RWMutex).RLock": func(m *M, g *G, a []Value, done func(Value)) action {
			o, i := a[0].r.(*Obj), int(a[0].n)
			if o.cells[i].n != 0 {
				act := m.block("rwmutex rlock")
				g.ready = func(m *M) bool { return o.cells[i].n == 0 }
				return act
			}
			m.acquire(o)
			m.write(o, i+1, Value{n: o.cells[i+1].n + 1})
			return next
		},
		"(*sync.WaitGroup).Wait": func(m *M, g *G, a []Value, done func(Value)) action {
			o, i := a[0].r.(*Obj), int(a[0].n)
			if o.cells[i].n != 0 {
				act := m.block("WaitGroup.Wait")
				g.ready = func(m *M) bool { return o.cells[i].n == 0 }
				return act
			}
			m.acquire(o)
			return next
		},
		// Quiesce lets every other goroutine run until it is done or blocked and returns how many are left.
		ndPkg + ".Quiesce": func(m *M, g *G, a []Value, done func(Value)) action {
			rest := func(m *M) bool {
				for _, h := range m.gs {
					if h != g && m.ready(h) {
						return true
					}
				}
				return false
			}
			if rest(m) {
				act := m.block("Quiesce")
				g.ready = func(m *M) bool { return !rest(m) }
				return act
			}
			done(intV(len(m.gs) - 1))
			return next
		},
		ndPkg + ".Assert": func(m *M, g *G, a []Value, done func(Value)) action {
			c := m.term(a[0], kind{isBool: true})
			m.asserts++
			if !m.branch(c) {
				panic(pathEnd{"assert", m.show(str(a[1]))})
			}
			return next
		},
		ndPkg + ".Fail": func(m *M, g *G, a []Value, done func(Value)) action {
			panic(pathEnd{"assert", m.show(str(a[0]))})
		},
		ndPkg + ".Stop": func(m *M, g *G, a []Value, done func(Value)) action {
			panic(pathEnd{"done", ""})
		},
	}
}

func mutexUnlock(m *M, a []Value) Value {
	o, i := a[0].r.(*Obj), int(a[0].n)
	if o.cells[i].n == 0 {
		panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	m.release(o)
	m.write(o, i, Value{})
	return Value{}
}

func (m *M) firstBytes(v Value, n int) *Str {
	if v.r == nil {
		return emptyStr
	}
	s := *v.r.(*Slice)
	if s.len > n {
		s.len = n
	}
	return m.strOfBytes(Value{r: &s})
}

// ndVar makes a fresh symbolic value; in (if given) is a string of admitted bytes.
func (m *M) ndVar(label string, k kind, in []Value) Value {
	m.ndSeq++
	t := m.newVar(fmt.Sprintf("%s#%d", label, m.ndSeq), k.w)
	m.nds = append(m.nds, ndRec{label: label, term: t})
	if in != nil {
		s := str(in[0])
		var set Bits
		for i := 0; i < len(s.s); i++ {
			set.add(uint64(s.s[i]))
		}
		id := int32(t.k)
		m.dtrail = append(m.dtrail, dEnt{id, m.dom[id]})
		m.dom[id] = set
		if !set.has(m.model[id]) {
			m.model[id] = set.min()
		}
		c := m.ts.InSet(id, set)
		m.pc = append(m.pc, c)
		if set.count() == 1 {
			return m.fromTerm(m.ts.Const(k.w, set.min()), k)
		}
	} else if k.w < 64 {
		m.model[t.k] &= mask(k.w)
	}
	return Value{r: t}
}

func (m *M) ndStr(n int, in []Value) Value {
	if n == 0 {
		return Value{}
	}
	b := make([]*Term, n)
	for i := range b {
		b[i] = m.bterm(m.ndVar("byte", kind{w: 8}, in))
	}
	return Value{r: mkStr(b)}
}

// assume restricts the path without exploring the complement.
func (m *M) assume(c *Term) {
	if c.op == OConst {
		if c.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if m.ex.certify {
		m.certifyImplied()
	}
	if len(m.decs) < len(m.prefix) {
		m.add(c)
		return
	}
	ct, _ := m.quick(c)
	switch ct {
	case no:
		panic(pathEnd{"assume", ""})
	case yes:
		m.setModel(c, true)
	default:
		if m.ts.eval(c, m.model) == 0 {
			r, mod := m.solve(c)
			if r == resUnsat {
				panic(pathEnd{"assume", ""})
			}
			if r == resUnknown {
				m.ex.incomplete("solver unknown on an assumption")
				panic(pathEnd{"assume", ""})
			}
			for v, x := range mod {
				m.model[v] = x
			}
		}
	}
	m.add(c)
}

// oneOf chooses a string and records it.
func (m *M) oneOf(c []string) Value {
	if len(c) == 0 {
		panic(pathEnd{"assume", "no strings"})
	}
	s := c[m.choose(len(c))]
	m.nds = append(m.nds, ndRec{label: "codestr", val: uint64(len(s)), choice: true})
	for i := 0; i < len(s); i++ {
		m.nds = append(m.nds, ndRec{label: "byte", val: uint64(s[i]), choice: true})
	}
	return strVal(s)
}
