// Core of the bounded model checker: exhaustive, index-addressed enumeration of cases, run on the
// real code, with supervision (panics, hangs, crashes), evidence, replays, and known findings.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Run struct {
	ID       string
	Tier     string
	Seed     int
	start    time.Time
	deadline time.Time
	only     string // "scope#index": run just this case

	trans  atomic.Int64
	traces atomic.Int64

	smu    [64]sync.Mutex
	states [64]map[uint64]struct{}
	capped atomic.Bool

	mu          sync.Mutex
	samples     []any
	scopes      []string
	truncated   []string
	assumptions []string
	fails       map[string]*failure // by key
	known       map[string]knownFinding
	order       []string
	nfails      int

	workers []*Worker

	reTries int
	first   bool           // stop at the first failure which is confirmed
	extra   map[string]any // for the coverage of the evidence
}

type failure struct {
	Key    string
	Scope  string
	Index  int64
	Detail string
	Again  int // reproductions out of reTries
	Count  int
}

type Worker struct {
	r     *Run
	scope string
	index int64
	since atomic.Int64 // unix nano when the case started; 0 is idle
	seq   atomic.Int64
	fails []failure
	slot  []byte
}

const (
	reTries   = 4
	slotSize  = 256
	hangLimit = 60 * time.Second
	memLimit  = 12 << 30
)

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q for the quick tier and t for thorough.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

func hash64(ss ...string) uint64 {
	h := fnv.New64a()
	for _, s := range ss {
		h.Write([]byte(s))
		h.Write([]byte{0xFF, 0})
	}
	return h.Sum64()
}

// State records a visited (model) state by hash.
func (r *Run) State(h uint64) {
	i := h & 63
	r.smu[i].Lock()
	if r.states[i] == nil {
		r.states[i] = map[uint64]struct{}{}
	}
	if len(r.states[i]) < 1<<17 {
		r.states[i][h] = struct{}{}
	} else if _, ok := r.states[i][h]; !ok {
		r.capped.Store(true)
	}
	r.smu[i].Unlock()
}

func (r *Run) nstates() int64 {
	var n int64
	for i := range r.states {
		n += int64(len(r.states[i]))
	}
	return n
}

func (r *Run) Assume(s ...string) { r.assumptions = append(r.assumptions, s...) }

func (r *Run) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

// Fail records that the current case broke the property. The key classifies the failure: it is
// what known findings are matched against.
func (w *Worker) Fail(key, format string, args ...any) {
	if len(w.fails) < 20 {
		w.fails = append(w.fails, failure{Key: key, Detail: fmt.Sprintf(format, args...)})
	}
}

func (w *Worker) Failed() bool { return len(w.fails) > 0 }

func (w *Worker) runCase(fn func(w *Worker, i int64), i int64) {
	w.fails = nil
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			w.Fail("panic", "panic: %v\n%s", p, st)
		}
	}()
	fn(w, i)
}

// Cases runs fn for every index in [0, n), in parallel. Returns false if the deadline stopped it.
func (r *Run) Cases(scope string, n int64, fn func(w *Worker, i int64)) bool {
	if only := r.only; only != "" {
		k := strings.LastIndex(only, "#")
		if only[:k] != scope {
			return true
		}
		i, _ := strconv.ParseInt(only[k+1:], 10, 64)
		r.workers[0].one(scope, i, fn)
		return true
	}

	var next, done atomic.Int64
	var stop atomic.Bool
	if time.Now().After(r.deadline) {
		stop.Store(true)
	}
	chunk := n / int64(len(r.workers)*64)
	if chunk < 1 {
		chunk = 1
	} else if chunk > 256 {
		chunk = 256
	}

	before := time.Now()
	var wg sync.WaitGroup
	for _, w := range r.workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for !stop.Load() {
				lo := next.Add(chunk) - chunk
				if lo >= n {
					break
				}
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				for i := lo; i < hi && !stop.Load(); i++ {
					w.one(scope, i, fn)
					done.Add(1)
				}
				if time.Now().After(r.deadline) {
					stop.Store(true)
				}
				r.mu.Lock()
				if r.nfails > 3000 {
					stop.Store(true)
				}
				r.mu.Unlock()
			}
			w.since.Store(0)
		}(w)
	}
	wg.Wait()

	r.mu.Lock()
	r.scopes = append(r.scopes, fmt.Sprintf("%s: %d of %d cases", scope, done.Load(), n))
	if done.Load() < n {
		r.truncated = append(r.truncated, scope)
	}
	r.mu.Unlock()
	if os.Getenv("MC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d cases in %s\n", scope, done.Load(), time.Since(before))
	}
	return done.Load() == n
}

func (w *Worker) one(scope string, i int64, fn func(w *Worker, i int64)) {
	w.scope, w.index = scope, i
	if w.slot != nil {
		n := copy(w.slot, scope)
		w.slot[n] = '#'
		m := copy(w.slot[n+1:], strconv.FormatInt(i, 10))
		w.slot[n+1+m] = 0
	}
	w.since.Store(time.Now().UnixNano())
	w.seq.Add(1)
	w.runCase(fn, i)
	w.r.traces.Add(1)
	if len(w.fails) == 0 {
		return
	}

	fails := w.fails
	again := map[string]int{}
	for t := 0; t < w.r.reTries; t++ {
		w.since.Store(time.Now().UnixNano())
		w.runCase(fn, i)
		seen := map[string]bool{}
		for _, f := range w.fails {
			if !seen[f.Key] {
				seen[f.Key] = true
				again[f.Key]++
			}
		}
	}

	r := w.r
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, f := range fails {
		if _, ok := r.known[f.Key]; !ok {
			r.nfails++
			if r.first && again[f.Key] == r.reTries {
				fmt.Printf("VIOLATION property=%s replay=none\n  key=%s scope=%s case=%d\n  %s\n",
					r.ID, f.Key, scope, i, f.Detail)
				os.Exit(1)
			}
		}
		if of, ok := r.fails[f.Key]; ok {
			of.Count++
			// Report the earliest case, so that the report does not depend on timing.
			if scope != of.Scope || i >= of.Index {
				continue
			}
			of.Index, of.Detail, of.Again = i, f.Detail, again[f.Key]
			continue
		}
		r.fails[f.Key] = &failure{Key: f.Key, Scope: scope, Index: i, Detail: f.Detail,
			Again: again[f.Key], Count: 1}
		r.order = append(r.order, f.Key)
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed: ..."
}

func loadKnown(id string) map[string]knownFinding {
	kfs := map[string]knownFinding{}
	buf, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return kfs
	}
	var all struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(buf, &all); err != nil {
		fmt.Fprintf(os.Stderr, "known_findings.json: %s\n", err)
		return kfs
	}
	for _, kf := range all.Findings {
		if kf.Property == id && kf.Status == "known" {
			kfs[kf.Key] = kf
		}
	}
	return kfs
}

func writeReplay(id string, f *failure, reTries int) string {
	dir := filepath.Join(verifDir(), "out", "replays")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.txt", id, hash64(f.Key, f.Detail)))
	txt := fmt.Sprintf("property: %s\nkey: %s\nscope: %s\ncase: %d\nreproduced: %d of %d reruns\n"+
		"rerun just this case: cd %s && MC_ONLY='%s#%d' ./run.sh %s\n\n%s\n", id, f.Key, f.Scope,
		f.Index, f.Again, reTries, verifDir(), f.Scope, f.Index, id, f.Detail)
	os.WriteFile(path, []byte(txt), 0666)
	return path
}

// finish reports and returns the exit code.
func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()

	known := r.known
	sort.Strings(r.order)
	code := 0
	nviol := 0
	for _, key := range r.order {
		f := r.fails[key]
		if kf, ok := known[key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, kf.What)
			continue
		}
		nviol++
		if nviol <= 10 {
			path := writeReplay(r.ID, f, r.reTries)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
			d := f.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("  key=%s scope=%s case=%d count=%d\n  %s\n", key, f.Scope, f.Index, f.Count,
				strings.ReplaceAll(d, "\n", "\n  "))
		}
		code = 1
	}
	if nviol > 10 {
		fmt.Printf("and %d more kinds of violation\n", nviol-10)
	}
	if r.only == "" {
		r.writeEvidence(nviol, r.extra)
	}
	return code
}

func (r *Run) writeEvidence(nviol int, extra map[string]any) {
	cov := map[string]any{
		"states":                        r.nstates(),
		"transitions":                   r.trans.Load(),
		"traces_validated_against_impl": r.traces.Load(),
		"samples":                       r.samples,
		"scopes":                        r.scopes,
		"exhaustive":                    len(r.truncated) == 0,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	if len(r.truncated) > 0 {
		cov["truncated_scopes"] = r.truncated
	}
	if r.capped.Load() {
		cov["states_note"] = "the count of distinct states is a lower bound: the table of hashes filled"
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property":    r.ID,
		"tier":        r.Tier,
		"seed":        r.Seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": r.assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  nviol,
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	buf, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintf(os.Stderr, "evidence: %s\n", err)
		return
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0777)
	os.WriteFile(filepath.Join(dir, r.ID+".json"), append(buf, '\n'), 0666)
}

func (r *Run) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		now := time.Now().UnixNano()
		var hung *Worker
		for _, w := range r.workers {
			if s := w.since.Load(); s != 0 && now-s > int64(hangLimit) {
				hung = w
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		if hung != nil {
			why = "hang"
		} else if ms.HeapAlloc > memLimit {
			why = "runaway memory"
			var oldest int64
			for _, w := range r.workers {
				if s := w.since.Load(); s != 0 && (oldest == 0 || s < oldest) {
					oldest, hung = s, w
				}
			}
		}
		if why == "" || hung == nil {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "%s: %s#%d\n%s\n", why, hung.scope, hung.index, buf)
		os.WriteFile(os.Getenv("MC_SLOTS")+".hang",
			[]byte(fmt.Sprintf("%s\n%s#%d\n%s\n", why, hung.scope, hung.index, buf)), 0666)
		os.Exit(3)
	}
}

func newRun(id string) *Run {
	r := &Run{
		reTries: reTries,
		ID:      id,
		Tier:    os.Getenv("VERIF_TIER"),
		start:   time.Now(),
		only:    os.Getenv("MC_ONLY"),
		first:   os.Getenv("MC_FIRST") != "",
		fails:   map[string]*failure{},
		known:   loadKnown(id),
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.deadline = r.start.Add(Pick(r, 300*time.Second, 780*time.Second))
	if s, err := strconv.Atoi(os.Getenv("MC_DEADLINE")); err == nil {
		r.deadline = r.start.Add(time.Duration(s) * time.Second)
	}
	return r
}

func child(id string, fn func(r *Run)) int {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	r := newRun(id)
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	} else if n < 2 {
		n = 2
	}
	if r.only != "" {
		n = 1
	}
	var slots []byte
	if p := os.Getenv("MC_SLOTS"); p != "" {
		if f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE, 0666); err == nil {
			f.Truncate(int64(n * slotSize))
			slots, _ = syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE,
				syscall.MAP_SHARED)
			f.Close()
		}
	}
	for i := 0; i < n; i++ {
		w := &Worker{r: r}
		if slots != nil {
			w.slot = slots[i*slotSize : (i+1)*slotSize]
		}
		r.workers = append(r.workers, w)
	}
	go r.watchdog()
	fn(r)
	return r.finish()
}

// supervise runs the check in a child process; a child which crashes or hangs is confirmed before
// it is reported.
func supervise(id string) int {
	tmp, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		tmp = os.TempDir()
	} else {
		defer os.RemoveAll(tmp)
	}
	slots := filepath.Join(tmp, "slots")

	attempt := func(only string) (int, string, bool) {
		os.Remove(slots + ".hang")
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1", "MC_SLOTS="+slots)
		if only != "" {
			cmd.Env = append(cmd.Env, "MC_ONLY="+only)
		}
		var out, errOut bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &errOut
		err := cmd.Run()
		code := 0
		killed := false
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() &&
					(ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
					killed = true
				}
			}
		}
		if code == 0 || code == 1 {
			os.Stdout.Write(out.Bytes())
			if os.Getenv("MC_TIME") != "" {
				os.Stderr.Write(errOut.Bytes())
			}
		}
		s := errOut.String()
		if len(s) > 20000 {
			s = s[:20000]
		}
		return code, s, killed
	}

	r := newRun(id)
	code, txt, killed := attempt(r.only)
	if code == 0 || code == 1 {
		return code
	}
	if killed {
		// Ended from the outside (for example, for using too much memory): no verdict.
		fmt.Printf("property=%s: the explorer was ended from outside; nothing decided\n", id)
		return 2
	}

	f := &failure{Key: "crash", Scope: "?", Detail: txt}
	if code == 3 {
		buf, _ := os.ReadFile(slots + ".hang")
		lines := strings.SplitN(string(buf), "\n", 3)
		if len(lines) == 3 {
			f.Key = strings.ReplaceAll(lines[0], " ", "-")
			f.Detail = lines[0] + "\n" + lines[2]
			k := strings.LastIndex(lines[1], "#")
			f.Scope = lines[1][:k]
			f.Index, _ = strconv.ParseInt(lines[1][k+1:], 10, 64)
			// Confirm with just this case.
			for t := 0; t < 2; t++ {
				if c, _, _ := attempt(lines[1]); c != 0 && c != -1 {
					f.Again++
				}
			}
		}
		if f.Again == 0 {
			// A stall of the machine rather than of the code: decide again from the start.
			c, _, _ := attempt("")
			if c == 0 || c == 1 {
				return c
			}
			fmt.Printf("property=%s: %s not confirmed; nothing decided\n", id, f.Key)
			return 2
		}
	} else {
		// A crash: which case? Every slot is a candidate; run each by itself.
		buf, _ := os.ReadFile(slots)
		for i := 0; i+slotSize <= len(buf); i += slotSize {
			s := string(buf[i : i+slotSize])
			if k := strings.IndexByte(s, 0); k > 0 {
				c, t, kl := attempt(s[:k])
				if c != 0 && !kl {
					k := strings.LastIndex(s[:k], "#")
					f.Scope = s[:k]
					f.Index, _ = strconv.ParseInt(strings.TrimRight(s[k+1:], "\x00"), 10, 64)
					f.Detail = t
					f.Again++
					if c == 1 {
						// Reported by the child.
						return 1
					}
					break
				}
			}
		}
		if f.Again == 0 {
			c, t, kl := attempt("")
			if c == 0 || c == 1 {
				return c
			}
			if kl {
				fmt.Printf("property=%s: the explorer was ended from outside; nothing decided\n", id)
				return 2
			}
			f.Detail = t
			f.Again = 1
		}
	}

	path := writeReplay(id, f, reTries)
	d := f.Detail
	if len(d) > 1500 {
		d = d[:1500]
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  key=%s scope=%s case=%d\n  %s\n", id, path, f.Key,
		f.Scope, f.Index, strings.ReplaceAll(d, "\n", "\n  "))
	r.truncated = []string{"stopped by " + f.Key}
	r.writeEvidence(1, nil)
	return 1
}

// Digits decodes index i in a mixed radix.
func Digits(i int64, radix ...int64) []int {
	ds := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		ds[k] = int(i % radix[k])
		i /= radix[k]
	}
	return ds
}

func Product(radix ...int64) int64 {
	n := int64(1)
	for _, x := range radix {
		n *= x
	}
	return n
}

func Power(a int64, d int) int64 {
	n := int64(1)
	for ; d > 0; d-- {
		n *= a
	}
	return n
}

// SeqDigits decodes index i as a sequence of d choices out of a.
func SeqDigits(i, a int64, d int, ds []int) []int {
	ds = ds[:0]
	for k := 0; k < d; k++ {
		ds = append(ds, 0)
	}
	for k := d - 1; k >= 0; k-- {
		ds[k] = int(i % a)
		i /= a
	}
	return ds
}

var checks = map[string]func(r *Run){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc ID")
		os.Exit(2)
	}
	id := os.Args[1]
	fn, ok := checks[id]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown property: %s\n", id)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(supervise(id))
	}
	os.Exit(child(id, fn))
}

func repoDir() string { return "/repo" }
