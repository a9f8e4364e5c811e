// Command mahosched explores the schedules of small concurrent programs on the real code, which
// is built with the sources rewritten to use the scheduler in vsync, and with the race detector.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"mahosched/vsync"
)

// A program is what one thread does: a list of units. Units are what must happen atomically
// with respect to the units of other threads, if the outcome is to be explained by an order.
type unit func(rec *recorder)

// recorder is what one thread observed.
type recorder struct {
	obs   []string
	panic string
}

func (rec *recorder) add(ss ...string) {
	rec.obs = append(rec.obs, strings.Join(ss, " "))
}

func errs(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// An instance is a program on a fresh system.
type instance struct {
	threads [][]unit
	final   func() string                 // run after all of the threads are done
	judge   func(recs []*recorder) string // or how the outcome is wrong, if not by an order
}

// scenario makes fresh instances.
type scenario struct {
	name  string
	fresh func() *instance
}

type result struct {
	Scenarios  int
	Executions int64 // schedules run to the end
	Trans      int64 // scheduling points passed
	Nodes      int64 // distinct states of the schedule tree
	Outcomes   int64
	MaxPoints  int
	Truncated  bool
	Nondet     string
	Key        string
	Detail     string
}

func runUnits(us []unit, rec *recorder) {
	defer func() {
		if p := recover(); p != nil {
			rec.panic = fmt.Sprint(p) + "\n" + string(debug.Stack())
		}
	}()
	for _, u := range us {
		u(rec)
	}
}

func outcome(recs []*recorder, final string) string {
	var sb strings.Builder
	for t, rec := range recs {
		sb.WriteString("thread " + strconv.Itoa(t) + ":\n")
		for _, o := range rec.obs {
			sb.WriteString("  " + o + "\n")
		}
		if rec.panic != "" {
			sb.WriteString("  panic\n")
		}
	}
	sb.WriteString("final: " + final)
	return sb.String()
}

// merges calls fn with every order of the units which keeps the order of each thread.
func merges(threads [][]unit, fn func(order []int)) {
	n := 0
	for _, us := range threads {
		n += len(us)
	}
	next := make([]int, len(threads))
	order := make([]int, 0, n)
	var rec func()
	rec = func() {
		if len(order) == n {
			fn(append([]int(nil), order...))
			return
		}
		for t := range threads {
			if next[t] < len(threads[t]) {
				next[t]++
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				next[t]--
			}
		}
	}
	rec()
}

func newRecs(n int) []*recorder {
	recs := make([]*recorder, n)
	for i := range recs {
		recs[i] = &recorder{}
	}
	return recs
}

var opNames = []string{"nothing", "mutex", "write lock", "readers to leave", "read lock",
	"wait group", "condition", "once"}

// explore runs every schedule with at most bound preemptions. Returns false to stop.
func (res *result) explore(sc *scenario, bound int, stmts bool, until time.Time) bool {
	res.Scenarios++
	fail := func(key, format string, args ...any) bool {
		res.Key = key
		res.Detail = "program: " + sc.name + "\n" + fmt.Sprintf(format, args...)
		return false
	}

	// The outcomes of running the units one at a time, in every order.
	serial := map[string]bool{}
	ins := sc.fresh()
	if ins.judge == nil {
		good := true
		merges(ins.threads, func(order []int) {
			if !good {
				return
			}
			ins := sc.fresh()
			recs := newRecs(len(ins.threads))
			x := vsync.Run(nil, false, func() {
				next := make([]int, len(ins.threads))
				for _, t := range order {
					runUnits(ins.threads[t][next[t]:next[t]+1], recs[t])
					next[t]++
				}
			})
			if x.Deadlock {
				good = fail("deadlock-serial", "one thread, in order %v: waits forever for %s",
					order, opNames[x.Waits[0]])
				return
			}
			for _, rec := range recs {
				if rec.panic != "" {
					good = fail("panic-serial", "one thread, in order %v: panic: %s", order,
						rec.panic)
					return
				}
			}
			var final string
			x = vsync.Run(nil, false, func() { final = ins.final() })
			if x.Deadlock {
				good = fail("deadlock-serial", "one thread, in order %v: a lock was never released",
					order)
				return
			}
			serial[outcome(recs, final)] = true
		})
		if !good {
			return false
		}
	}

	outcomes := map[string]bool{}
	stack := [][]uint8{nil}
	for len(stack) > 0 {
		pre := stack[len(stack)-1]
		stack = stack[:len(stack)-1]

		ins := sc.fresh()
		recs := newRecs(len(ins.threads))
		fns := make([]func(), len(ins.threads))
		for t := range fns {
			t := t
			fns[t] = func() { runUnits(ins.threads[t], recs[t]) }
		}
		races := raceErrors()
		x := vsync.Run(pre, stmts, fns...)
		res.Trans += x.Trans
		res.Nodes += int64(len(x.Chosen) - len(pre) + 1)
		if len(x.Chosen) > res.MaxPoints {
			res.MaxPoints = len(x.Chosen)
		}
		if x.Diverged {
			res.Nondet = "program: " + sc.name + ": a schedule could not be repeated"
			return false
		}
		if x.Overflow {
			res.Truncated = true
			return false
		}
		res.Executions++

		sched := func() string {
			// Where the running thread was changed.
			var sb strings.Builder
			for i, c := range x.Chosen {
				if c != 0 {
					sb.WriteString(fmt.Sprintf(" %d:%d", i, c))
				}
			}
			return fmt.Sprintf("schedule (choices other than to keep running, as point:choice):%s",
				sb.String())
		}
		if raceErrors() != races {
			return fail("data-race", "%s\ndata race: see the report", sched())
		}
		for t, rec := range recs {
			if rec.panic != "" {
				return fail("panic", "%s\nthread %d: panic: %s", sched(), t, rec.panic)
			}
		}
		if x.Deadlock {
			var sb strings.Builder
			for t, op := range x.Waits {
				if op != 0 {
					sb.WriteString(fmt.Sprintf("; thread %d waits for: %s", t, opNames[op]))
				}
			}
			return fail("deadlock", "%s\ndeadlock%s", sched(), sb.String())
		}
		var final string
		if ins.final != nil {
			fx := vsync.Run(nil, false, func() { final = ins.final() })
			if fx.Deadlock {
				return fail("lock-leak", "%s\na lock was never released\n%s", sched(),
					outcome(recs, ""))
			}
		}
		out := outcome(recs, final)
		outcomes[out] = true
		if ins.judge != nil {
			if wrong := ins.judge(recs); wrong != "" {
				return fail("wrong", "%s\n%s\n%s", sched(), wrong, out)
			}
		} else if !serial[out] {
			var keys []string
			for k := range serial {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			return fail("not-serializable", "%s\noutcome:\n%s\nis not one of the outcomes of running"+
				" one at a time:\n%s", sched(), out, strings.Join(keys, "\n--\n"))
		}

		// Preemptions before each point.
		cost := 0
		for i := 0; i < len(x.Chosen); i++ {
			if i >= len(pre) {
				c := cost
				if x.Stay[i] {
					c++
				}
				if c <= bound {
					for alt := int(x.Enabled[i]) - 1; alt >= 1; alt-- {
						np := append(append(make([]uint8, 0, i+1), x.Chosen[:i]...), uint8(alt))
						stack = append(stack, np)
					}
				}
			}
			if x.Stay[i] && x.Chosen[i] != 0 {
				cost++
			}
		}

		if time.Now().After(until) {
			res.Truncated = true
			return false
		}
	}
	res.Outcomes += int64(len(outcomes))
	return true
}

// group is a set of scenarios explored by one process.
type group struct {
	Scope string
	Bound int
	Stmts bool
	Race  bool
	N     int
	at    func(i int) []*scenario
}

func (g group) how() string {
	s := ""
	if g.Stmts {
		s += ", every statement"
	}
	if g.Race {
		s += ", race detector"
	}
	return s
}

func main() {
	if len(os.Args) < 3 {
		os.Exit(2)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	gs := groups(os.Args[1], os.Args[2] == "thorough")
	if len(os.Args) < 6 {
		json.NewEncoder(os.Stdout).Encode(gs)
		return
	}
	g, _ := strconv.Atoi(os.Args[3])
	i, _ := strconv.Atoi(os.Args[4])
	secs, _ := strconv.Atoi(os.Args[5])
	until := time.Now().Add(time.Duration(secs) * time.Second)
	var res result
	for _, sc := range gs[g].at(i) {
		if !res.explore(sc, gs[g].Bound, gs[g].Stmts, until) {
			break
		}
	}
	stopProf()
	json.NewEncoder(os.Stdout).Encode(&res)
}
