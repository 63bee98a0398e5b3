// Package ctlsync stands in for package sync in the code under test, so that
// the explorer decides which goroutine runs next at every synchronization
// operation.
//
// Exactly one controlled goroutine runs at a time; the others spin in Gosched
// (the process runs with GOMAXPROCS=1).  The handing over is written such that
// the race detector doesn't see it: its functions aren't instrumented and
// touch plain memory only.  Only the happens-before edges that the real
// operations have are reported to the race detector, so it finds races of the
// code under test in every schedule although the schedule is sequential.
package ctlsync

import (
	"fmt"
	"runtime"
	"unsafe"
)

const (
	MaxThreads = 8
	MaxSteps   = 20000
)

type kind int

const (
	kYield kind = iota
	kAnnounce
	kDrain // a writer that waits for the readers before it
	kRLock
	kMutex
	kOnce
	kWait
	kSema
)

type thread struct {
	id   int
	k    kind
	rw   *RWMutex
	mu   *Mutex
	once *Once
	wg   *WaitGroup
	tick *bool
	done bool
}

// World is one controlled execution.
type World struct {
	threads [MaxThreads]thread
	n       int
	turn    int // whose turn it is, -1: the explorer's
	steps   int

	// Choices made, and the alternatives there were.
	Script    [MaxSteps]int8 // in: the choices to replay, then 0
	ScriptLen int
	Taken     [MaxSteps]int8
	Alts      [MaxSteps]int8 // number of enabled threads
	CurOn     [MaxSteps]bool // is the thread that ran before among them (as alternative 0)?
	NChoices  int

	Deadlock bool
	Runaway  bool
	Diverged bool
	Clock    int
}

var world *World
var fence byte

// cur is the running controlled thread, or nil.
//
//go:norace
func cur() *thread {
	if world == nil || world.turn < 0 {
		return nil
	}
	return &world.threads[world.turn]
}

//go:norace
func (w *World) enabled(t *thread) bool {
	if t.done {
		return false
	}
	switch t.k {
	case kAnnounce:
		return !t.rw.announced
	case kDrain:
		return t.rw.readers == 0
	case kRLock:
		return !t.rw.announced
	case kMutex:
		return !t.mu.locked
	case kOnce:
		return t.once.done || !t.once.running
	case kWait:
		return t.wg.n <= 0
	case kSema:
		return *t.tick
	}
	return true
}

// next decides who runs next, and hands over.
//
//go:norace
func (w *World) next(me *thread) {
	w.steps++
	if w.steps >= MaxSteps {
		w.Runaway = true
		w.turn = -1
		w.park(me)
		return
	}
	var en [MaxThreads]int
	n := 0
	curOn := false
	if me != nil && w.enabled(me) {
		en[0] = me.id
		n = 1
		curOn = true
	}
	left := false
	for i := 0; i < w.n; i++ {
		t := &w.threads[i]
		if !t.done {
			left = true
		}
		if (me == nil || t.id != me.id) && w.enabled(t) {
			en[n] = t.id
			n++
		}
	}
	if n == 0 {
		if left {
			w.Deadlock = true
		}
		w.turn = -1
		if left {
			w.park(me)
		}
		return
	}
	c := 0
	if n > 1 {
		if w.NChoices < w.ScriptLen {
			c = int(w.Script[w.NChoices])
			if c >= n {
				w.Diverged = true
				c = 0
			}
		}
		w.Taken[w.NChoices] = int8(c)
		w.Alts[w.NChoices] = int8(n)
		w.CurOn[w.NChoices] = curOn
		w.NChoices++
	}
	w.turn = en[c]
	if me != nil && !me.done {
		w.park(me)
	}
}

//go:norace
func (w *World) park(me *thread) {
	if me == nil {
		return
	}
	for w.turn != me.id {
		runtime.Gosched()
	}
}

// point is a scheduling point of the running thread; it returns when the
// operation can be done.
//
//go:norace
func point(t *thread) {
	world.next(t)
	t.k = kYield
}

//go:norace
func yield() {
	if t := cur(); t != nil {
		t.k = kYield
		point(t)
	}
}

// Yield is a scheduling point.
//
//go:norace
func Yield() { yield() }

// Now is a logical clock, which ticks on every call.
//
//go:norace
func Now() int {
	if world == nil {
		return 0
	}
	world.Clock++
	return world.Clock
}

// Run executes the functions as controlled threads; Script and ScriptLen say
// which choices to make first.
//
//go:norace
func (w *World) Run(fs []func()) {
	w.n = len(fs)
	w.NChoices, w.steps, w.Clock = 0, 0, 0
	w.Deadlock, w.Runaway, w.Diverged = false, false, false
	w.turn = -2
	for i := range fs {
		w.threads[i] = thread{id: i}
	}
	world = w
	for i := range fs {
		go start(w, &w.threads[i], fs[i])
	}
	w.next(nil)
	for w.turn != -1 {
		runtime.Gosched()
	}
	world = nil
	acquireFence()
}

//go:norace
func start(w *World, t *thread, f func()) {
	w.park(t)
	f()
	releaseFence()
	t.done = true
	w.next(t)
}

func acquireFence() { acquire(unsafe.Pointer(&fence)) }
func releaseFence() { releaseMerge(unsafe.Pointer(&fence)) }

// Blocked is what a thread panics with that would block forever outside of a
// controlled execution, or misuses an operation.
type Blocked struct{ Msg string }

func (b Blocked) Error() string { return b.Msg }

func blocked(format string, args ...interface{}) {
	panic(Blocked{fmt.Sprintf(format, args...)})
}
