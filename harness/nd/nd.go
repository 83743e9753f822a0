// Package nd is the interface between a harness and the symbolic executor. The executor intercepts these
// functions; the bodies here are used when a counterexample or witness is replayed against the real build.
package nd

import (
	"fmt"
	"os"
	"runtime"
	"time"
)

// Val is one recorded nondeterministic value.
type Val struct {
	L string `json:"l"`
	V uint64 `json:"v"`
}

// Violation is the panic value of a failed assertion.
type Violation struct{ Msg string }

type stop struct{}

var (
	vals     []Val
	pos      int
	tier     int
	Shows    [][2]string
	base     int
	Diverged string
	scratch  string
)

func take(l string) uint64 {
	if pos >= len(vals) {
		if Diverged == "" {
			Diverged = "ran out of recorded values at a " + l
		}
		return 0
	}
	v := vals[pos]
	pos++
	if v.L != l && Diverged == "" {
		Diverged = fmt.Sprintf("value %d is a %s, wanted %s", pos-1, v.L, l)
	}
	return v.V
}

// Run executes a harness on recorded values.
func Run(f func(), vs []Val, t int) (kind, msg string) {
	vals, pos, tier, Shows, Diverged = vs, 0, t, nil, ""
	base = runtime.NumGoroutine()
	defer func() {
		if scratch != "" {
			os.Chdir("/")
			os.RemoveAll(scratch)
			scratch = ""
		}
		if r := recover(); r != nil {
			switch r := r.(type) {
			case Violation:
				kind, msg = "assert", r.Msg
			case stop:
				kind = "done"
			default:
				kind, msg = "panic", fmt.Sprint(r)
			}
		}
	}()
	f()
	return "done", ""
}

// Byte returns an arbitrary byte.
func Byte() byte { return byte(take("byte")) }

// ByteIn returns an arbitrary byte of set.
func ByteIn(set string) byte { return byte(take("byte")) }

// Bool returns an arbitrary boolean.
func Bool() bool { return take("bool") != 0 }

// Uint64 returns an arbitrary value.
func Uint64() uint64 { return take("u64") }

// Uint32 returns an arbitrary value.
func Uint32() uint32 { return uint32(take("u32")) }

// Int64 returns an arbitrary value.
func Int64() int64 { return int64(take("i64")) }

// Str returns a string of n arbitrary bytes.
func Str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return string(b)
}

// StrIn returns a string of n arbitrary bytes of set.
func StrIn(n int, set string) string { return Str(n) }

// Pick returns an arbitrary number in [0,n); every alternative is explored.
func Pick(n int) int { return int(take("pick")) }

// CodeInt returns a number within [lo,hi] that is, or is next to, an integer constant of the code under test.
func CodeInt(lo, hi int) int { return int(take("code")) }

// CodeStr returns a string constant of the code under test.
func CodeStr() string {
	n := int(take("codestr"))
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take("byte"))
	}
	return string(b)
}

// TableStr returns a key of the directive tables of the code under test.
func TableStr() string { return CodeStr() }

// Assume discards executions in which c is false.
func Assume(c bool) {
	if !c {
		panic(stop{})
	}
}

// Assert states that c holds in every execution.
func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// Fail reports a violation.
func Fail(msg string) { panic(Violation{msg}) }

// Stop ends the execution.
func Stop() { panic(stop{}) }

// Cover marks that this point is reachable.
func Cover(label string) {}

// Known marks an execution as an instance of a recorded finding.
func Known(id string) {}

// Show records a value for reports and for comparing the executor with the real build.
func Show(name, s string) { Shows = append(Shows, [2]string{name, s}) }

// Symbolic tells whether the harness runs in the symbolic executor.
func Symbolic() bool { return false }

// Scratch returns the name of a directory, which is first empty, made the working directory, and removed at the end.
func Scratch() string {
	if scratch != "" {
		return scratch
	}
	var err error
	if scratch, err = os.MkdirTemp("", "verif-scratch"); err == nil {
		err = os.Chdir(scratch)
	}
	if err != nil {
		Diverged = "no scratch directory: " + err.Error()
	}
	return scratch
}

// Tier is 0 for quick and 1 for thorough checks.
func Tier() int { return tier }

// MaxSteps bounds the instructions of a path; exceeding it is reported as nontermination.
func MaxSteps(n int) {}

// ScheduleOn makes scheduling choices symbolic, with at most n preemptions.
func ScheduleOn(n int) {}

// ScheduleOff makes scheduling deterministic again.
func ScheduleOff() {}

// MapOrder makes map iteration order symbolic.
func MapOrder(on bool) {}

// RaceOn reports unordered conflicting accesses.
func RaceOn() {}

// Concrete fixes the bytes of s, exploring every possibility.
func Concrete(s string) string { return s }

// EqStr is a == b without forking per byte.
func EqStr(a, b string) bool { return a == b }

// And and Or combine conditions without forking.
func And(a, b bool) bool { return a && b }

// Or is the disjunction.
func Or(a, b bool) bool { return a || b }

// Quiesce waits until every other goroutine has finished or is stuck and returns how many are left.
func Quiesce() int {
	for i := 0; i < 200; i++ {
		if runtime.NumGoroutine() <= base {
			return 0
		}
		time.Sleep(5 * time.Millisecond)
	}
	return runtime.NumGoroutine() - base
}

// Exited is the panic by which a program called as a function ends.
type Exited struct{ Code int }

// Exit stands for os.Exit.
func Exit(code int) { panic(Exited{code}) }

// Fatal, Fatalf and Fatalln stand for the functions of package log.
func Fatal(v ...any)                 { Exit(1) }
func Fatalln(v ...any)               { Exit(1) }
func Fatalf(format string, v ...any) { Exit(1) }

// ToolStr returns a string constant of the generator.
func ToolStr() string { return CodeStr() }
