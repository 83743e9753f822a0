package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type action uint8

const (
	next    action = iota // advance to the following instruction
	jumped                // the frame or its pc changed; look again
	blocked               // the goroutine cannot proceed
)

type Instr struct {
	ex  func(m *M, f *Frame) action
	pos token.Pos
	ssa ssa.Instruction
}

type phiMove struct {
	dst, src int32
}

// Func is a compiled function.
type Func struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	consts   []Value
	code     []Instr
	recover  int // code index of the recover block, -1 if none
	nat      func(m *M, args []Value) Value
	natCtl   func(m *M, g *G, args []Value, done func(Value)) action // native with control over scheduling
	compiled bool
	steps    int64
	nresults int
	id       int
}

type deferred struct {
	fn   Value // *Closure
	args []Value
	next *deferred
}

type Frame struct {
	fn     *Func
	regs   []Value
	pc     int
	epoch  int32
	retDst int32 // register of the caller receiving the result (-1: none)
	defers *deferred
	// unwinding: this frame is running its deferred calls because of a panic
	unwinding bool
	isDefer   bool // frame is a deferred call
	byPanic   bool // ... run by a panicking frame
}

func (f *Frame) clone(epoch int32) *Frame {
	g := *f
	g.regs = append([]Value(nil), f.regs...)
	g.epoch = epoch
	return &g
}

func (f *Frame) get(i int32) Value {
	if i >= 0 {
		return f.regs[i]
	}
	return f.fn.consts[^i]
}

type gStatus uint8

const (
	gRun gStatus = iota
	gBlocked
	gDone
)

type gState struct {
	status    gStatus
	waits     []waitOn
	waitWhy   string
	ready     func(m *M) bool // blocked in a native: may it proceed?
	selIdx    int
	panicking bool
	panicVal  Value
	panicAt   string
	recvVal   Value // value handed over by a sender
	recvOK    bool
	completed bool // the blocked channel operation was completed by the other side
	yielded   bool // a scheduling choice was already made for the current instruction
	vc        []int32
}

// waitOn is a channel operation a goroutine is blocked in.
type waitOn struct {
	ch   *Chan
	send bool
	v    Value
}

// G is a goroutine.
type G struct {
	gState
	id     int
	frames []*Frame
}

func (g *G) top() *Frame { return g.frames[len(g.frames)-1] }
