// Package vsync is a controlled scheduler, and stands in for package sync. The sources of the code
// under test are rewritten to use it.
//
// Exactly one thread runs at a time; at every scheduling point the running thread picks the thread
// to run next, following a prefix of choices and then the default (keep running). The hand-offs
// are invisible to the race detector: all of the state of the scheduler is plain memory, used only
// by functions which are not instrumented, and a thread which waits spins on its turn (with one
// processor, that is a switch of goroutines). The only happens-before edges seen by the detector
// are the ones of the real primitives underneath, so an unsynchronized access is found in every
// schedule which has it.
package vsync

import (
	"runtime"
	"sync"
)

const (
	MaxThreads = 4
	MaxPoints  = 1 << 16
)

// What a thread waits for.
const (
	opNone = iota
	opMutex
	opWriter  // to be the (only) writer pending
	opReaders // to have no more readers
	opReader
	opGroup
	opCond
	opOnce
)

type pending struct {
	op int
	m  *Mutex
	rw *RWMutex
	wg *WaitGroup
	c  *Cond
	on *Once
}

var (
	active  bool
	aborted bool
	stmts   bool // points before statements also
	nthr    int
	cur     int
	done    [MaxThreads]bool
	pend    [MaxThreads]pending
	signal  [MaxThreads]bool

	prefix   [MaxPoints]uint8
	nprefix  int
	enabledN [MaxPoints]uint8
	chosen   [MaxPoints]uint8
	canStay  [MaxPoints]bool // the running thread could go on
	npoints  int
	ntrans   int64
	deadlock bool
	diverged bool
	overflow bool
	waitMask [MaxThreads]int
)

//go:norace
func (p *pending) ready(t int) bool {
	switch p.op {
	case opMutex:
		return !p.m.held
	case opWriter:
		return !p.rw.pending
	case opReaders:
		return p.rw.readers == 0
	case opReader:
		return !p.rw.pending
	case opGroup:
		return p.wg.n <= 0
	case opCond:
		return signal[t]
	case opOnce:
		return !p.on.busy
	}
	return true
}

// point is called by the running thread: some thread, perhaps another one, goes on. Returns when
// this thread is picked, which is only when what it waits for is so.
//
//go:norace
func point(p pending) {
	if !active {
		return
	}
	if aborted {
		runtime.Goexit()
	}
	me := cur
	pend[me] = p
	pick(me)
	for cur != me {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
	if aborted {
		runtime.Goexit()
	}
	pend[me] = pending{}
}

//go:norace
func pick(me int) {
	ntrans++
	var en [MaxThreads]int
	n := 0
	stay := false
	if me >= 0 && !done[me] && pend[me].ready(me) {
		en[0] = me
		n = 1
		stay = true
	}
	alive := 0
	for t := 0; t < nthr; t++ {
		if done[t] {
			continue
		}
		alive++
		if t != me && pend[t].ready(t) {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		if alive > 0 {
			deadlock = true
			for t := 0; t < nthr; t++ {
				waitMask[t] = 0
				if !done[t] {
					waitMask[t] = pend[t].op
				}
			}
			aborted = true
		}
		return
	}
	c := 0
	if n > 1 {
		if npoints >= MaxPoints {
			overflow = true
			aborted = true
			return
		}
		if npoints < nprefix {
			c = int(prefix[npoints])
			if c >= n {
				diverged = true
				aborted = true
				return
			}
		}
		enabledN[npoints] = uint8(n)
		chosen[npoints] = uint8(c)
		canStay[npoints] = stay
		npoints++
	}
	cur = en[c]
}

// Stmt is a scheduling point before a statement.
//
//go:norace
func Stmt() {
	if active && stmts {
		point(pending{})
	}
}

// Point is a scheduling point before (or after) a synchronization operation.
//
//go:norace
func Point() {
	if active {
		point(pending{})
	}
}

//go:norace
func waitTurn(t int) {
	for cur != t {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
	if aborted {
		runtime.Goexit()
	}
}

//go:norace
func finish(t int) {
	done[t] = true
	if !aborted && cur == t {
		pick(t)
	}
}

//go:norace
func begin(n int, pre []uint8, withStmts bool) {
	nthr = n
	stmts = withStmts
	nprefix = len(pre)
	for i := 0; i < len(pre); i++ {
		prefix[i] = pre[i]
	}
	npoints = 0
	deadlock, diverged, overflow, aborted = false, false, false, false
	for t := 0; t < MaxThreads; t++ {
		done[t] = t >= n
		pend[t] = pending{}
		signal[t] = false
	}
	cur = -1
	active = true
}

//go:norace
func start() {
	pick(-1)
}

//go:norace
func end() {
	active = false
}

// Execution is what happened: at each point with a choice, how many threads were enabled, the one
// that was picked, and whether the running thread could have gone on.
type Execution struct {
	Enabled  []uint8
	Chosen   []uint8
	Stay     []bool
	Trans    int64
	Deadlock bool
	Waits    []int
	Diverged bool
	Overflow bool
}

//go:norace
func collect(x *Execution) {
	for i := 0; i < npoints; i++ {
		x.Enabled = append(x.Enabled, enabledN[i])
		x.Chosen = append(x.Chosen, chosen[i])
		x.Stay = append(x.Stay, canStay[i])
	}
	x.Trans = ntrans
	x.Deadlock, x.Diverged, x.Overflow = deadlock, diverged, overflow
	for t := 0; t < nthr; t++ {
		x.Waits = append(x.Waits, waitMask[t])
	}
	ntrans = 0
}

// Run runs the threads under the scheduler.
func Run(pre []uint8, withStmts bool, fns ...func()) *Execution {
	begin(len(fns), pre, withStmts)
	var wg sync.WaitGroup
	for t, fn := range fns {
		wg.Add(1)
		go func(t int, fn func()) {
			defer wg.Done()
			defer finish(t)
			waitTurn(t)
			fn()
		}(t, fn)
	}
	start()
	wg.Wait()
	end()
	x := &Execution{}
	collect(x)
	return x
}

//go:norace
func isAborted() bool {
	return active && aborted
}
