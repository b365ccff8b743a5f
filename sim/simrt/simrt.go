// Package simrt is linked into the instrumented copy of the code under test:
// a yield between any two statements, an account of the memory that is asked
// for, and a cooperative scheduler that decides at every yield who goes on.
//
// Everything the scheduler touches between tasks is in functions that the race
// detector does not look at, so that handing over the processor does not look
// like synchronisation and real data races stay visible.
package simrt

import (
	"fmt"
	"runtime"
)

// Steps counts the yields since the last reset.
var Steps int64

// StepLimit makes a yield panic with StepPanic, if it is not zero.
var StepLimit int64

// StepPanic is raised when the step limit is exceeded.
type StepPanic struct{ Steps int64 }

func (p StepPanic) Error() string { return fmt.Sprintf("more than %d steps", p.Steps) }

// Largest request for memory and the sum of all.
var (
	AllocMax   int64
	AllocSum   int64
	AllocLimit int64 // makes a larger single request panic with AllocPanic
)

// AllocPanic is raised instead of granting a request above the limit.
type AllocPanic struct{ Bytes int64 }

func (p AllocPanic) Error() string { return fmt.Sprintf("request for %d bytes", p.Bytes) }

var total int64

// Total is the number of yields since it was called last.
//
//go:norace
func Total() int64 {
	n := total + Steps - counted
	counted += n
	return n
}

var counted int64

// Reset clears the accounts.
//
//go:norace
func Reset(stepLimit, allocLimit int64) {
	total += Steps
	Steps, StepLimit = 0, stepLimit
	AllocMax, AllocSum, AllocLimit = 0, 0, allocLimit
}

// A accounts a request for n elements.
//
//go:norace
func A[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N, size uintptr) N {
	if n <= 0 {
		return n
	}
	b := int64(-1)
	if u := uint64(n); u < 1<<40 && size < 1<<20 {
		b = int64(u * uint64(size))
	}
	if b < 0 {
		b = 1 << 62
	}
	if b > AllocMax {
		AllocMax = b
	}
	if AllocSum+b > 0 {
		AllocSum += b
	}
	if AllocLimit > 0 && b > AllocLimit {
		panic(AllocPanic{b})
	}
	return n
}

// Slice is one entry of a schedule: let the task Next run for Len yields.
type Slice struct{ Next, Len int32 }

type sched struct {
	on      bool
	turn    int32
	left    int32
	n       int32
	done    [64]bool
	waiting [64]bool
	plan    []Slice
	pos     int
	Seen    uint64 // hash of the switches
	sw      int
	stuck   bool
	spins   int64
}

var s sched

// Y is a yield.
//
//go:norace
func Y() {
	Steps++
	if StepLimit > 0 && Steps > StepLimit {
		panic(StepPanic{StepLimit})
	}
	if !s.on {
		return
	}
	s.left--
	if s.left > 0 {
		return
	}
	handOver()
}

// handOver gives the processor to the task the plan names and waits for it to
// come back.
//
//go:norace
func handOver() {
	me := s.turn
	choose(me)
	waitTurn(me)
}

//go:norace
func waitTurn(me int32) {
	for s.turn != me {
		runtime.Gosched()
	}
}

//go:norace
func choose(me int32) {
	next := me
	s.left = 1 << 30
	if s.pos < len(s.plan) {
		next = s.plan[s.pos].Next % s.n
		s.left = s.plan[s.pos].Len
		s.pos++
	}
	for i := int32(0); i < s.n; i++ {
		k := (next + i) % s.n
		if !s.done[k] && !(s.waiting[k] && k == me) {
			next = k
			break
		}
	}
	if s.done[next] {
		for k := int32(0); k < s.n; k++ {
			if !s.done[k] {
				next = k
			}
		}
	}
	if next != me {
		s.Seen = (s.Seen ^ uint64(Steps)<<8 ^ uint64(next)) * 1099511628211
		s.sw++
	}
	s.turn = next
}

// Deadlock is raised in a task that waits when all others wait, too.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock" }

// Wait lets others run because the caller cannot go on; call it in a loop. It
// panics with Deadlock if that does not help for a long time.
//
//go:norace
func Wait() {
	if !s.on {
		panic(Deadlock{})
	}
	me := s.turn
	s.waiting[me] = true
	s.spins++
	if s.spins > 200000 {
		panic(Deadlock{})
	}
	choose(me)
	if s.left > 1<<20 {
		s.left = 50 // the plan is used up, take turns
	}
	waitTurn(me)
	s.waiting[me] = false
}

// Progress tells that a task that waited can go on.
//
//go:norace
func Progress() { s.spins = 0 }

// Result of a scheduled run.
type Result struct {
	Panics   []any
	Switches int
	Hash     uint64
	Steps    int64
}

//go:norace
func start(n int, plan []Slice) {
	s = sched{on: true, n: int32(n), plan: plan, left: 1 << 30}
	if len(plan) > 0 {
		s.turn = plan[0].Next % int32(n)
		s.left = plan[0].Len
		s.pos = 1
	}
}

//go:norace
func finish(me int32) {
	s.done[me] = true
	s.spins = 0
	choose(me)
}

//go:norace
func stop() (int, uint64) {
	s.on = false
	return s.sw, s.Seen
}

// Run runs tasks under a schedule until all are done.
func Run(plan []Slice, tasks ...func()) Result {
	old := runtime.GOMAXPROCS(1)
	defer runtime.GOMAXPROCS(old)
	res := Result{Panics: make([]any, len(tasks))}
	start(len(tasks), plan)
	ended := make(chan int, len(tasks))
	for i := range tasks {
		go func(me int32, f func()) {
			waitTurn(me)
			defer func() {
				finish(me)
				ended <- int(me)
			}()
			defer func() { res.Panics[me] = recover() }()
			f()
		}(int32(i), tasks[i])
	}
	for range tasks {
		<-ended
	}
	res.Switches, res.Hash = stop()
	res.Steps = Steps
	return res
}
