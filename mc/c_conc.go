// C14, C22, C36: the explorer of schedules in ../sched is built from the current sources, rewritten to
// use its scheduler, and run once for each group of small concurrent programs.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C14"] = func(r *Run) { checkConc(r) }
	checks["C22"] = func(r *Run) { checkConc(r) }
	checks["C36"] = func(r *Run) { checkConc(r) }
}

type concInsert struct {
	off  int
	text string
	del  int
}

// instrument rewrites a file: imports of sync and sync/atomic, and, with stmts, a scheduling point
// before each statement. With onlyShared, just in the functions which mention a variable of the
// package. Returns nil if there is nothing to do.
func instrument(src []byte, f *ast.File, fset *token.FileSet, stmts, onlyShared bool,
	pkgVars map[string]bool) (out []byte, notModelled string) {

	var ins []concInsert
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name, to := "", ""
		switch path {
		case "sync":
			name, to = "sync", "mahosched/vsync"
		case "sync/atomic":
			name, to = "atomic", "mahosched/vatomic"
		default:
			continue
		}
		text := strconv.Quote(to)
		if im.Name == nil {
			text = name + " " + text
		}
		ins = append(ins, concInsert{at(im.Path.Pos()), text, len(im.Path.Value)})
	}

	npoints := 0
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			ins = append(ins, concInsert{at(s.Pos()), "mcvsync.Stmt(); ", 0})
			npoints++
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
				notModelled = fmt.Sprintf("%s: threads and channels", fset.Position(n.Pos()))
			}
			if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				notModelled = fmt.Sprintf("%s: channels", fset.Position(n.Pos()))
			}
			return true
		})
		if !stmts {
			continue
		}
		if onlyShared {
			shared := false
			ast.Inspect(fd, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && pkgVars[id.Name] {
					shared = true
				}
				return true
			})
			if !shared {
				continue
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return nil, notModelled
	}
	if npoints > 0 {
		ins = append(ins, concInsert{at(f.Name.End()), "; import mcvsync \"mahosched/vsync\"", 0})
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var buf bytes.Buffer
	last := 0
	for _, in := range ins {
		buf.Write(src[last:in.off])
		buf.WriteString(in.text)
		last = in.off + in.del
	}
	buf.Write(src[last:])
	return buf.Bytes(), notModelled
}

// concOverlay writes the rewritten sources and the overlay file into dir.
func concOverlay(dir string, stmts bool) (notModelled string, err error) {
	const repo = "/repo"
	replace := map[string]string{}
	n := 0
	err = filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		if path != repo && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_") ||
			d.Name() == "testdata" || d.Name() == "testutil") {

			return filepath.SkipDir
		}
		if path == repo {
			return nil
		}
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		srcs := map[string][]byte{}
		pkgVars := map[string]bool{}
		names, _ := filepath.Glob(filepath.Join(path, "*.go"))
		for _, name := range names {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files[name], srcs[name] = f, src
			for _, d := range f.Decls {
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, s := range gd.Specs {
						for _, id := range s.(*ast.ValueSpec).Names {
							if id.Name != "_" {
								pkgVars[id.Name] = true
							}
						}
					}
				}
			}
		}
		rel, _ := filepath.Rel(repo, path)
		all := rel == "engine" || rel == "evaluate" || strings.HasPrefix(rel, "storage")
		for _, name := range names {
			f := files[name]
			if f == nil {
				continue
			}
			out, nm := instrument(srcs[name], f, fset, stmts, !all, pkgVars)
			if nm != "" && !strings.HasPrefix(rel, "parser") {
				notModelled = nm
			}
			if out == nil {
				continue
			}
			n++
			to := filepath.Join(dir, fmt.Sprintf("f%d.go", n))
			if err := os.WriteFile(to, out, 0666); err != nil {
				return err
			}
			replace[name] = to
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	buf, _ := json.Marshal(map[string]any{"Replace": replace})
	return notModelled, os.WriteFile(filepath.Join(dir, "overlay.json"), buf, 0666)
}

// concBuild builds the explorer, and the explorer with the race detector.
func concBuild(dir string) (bin, race, notModelled string, err error) {
	for _, stmts := range []bool{true, false} {
		notModelled, err = concOverlay(dir, stmts)
		if err != nil {
			return "", "", "", err
		}
		bin, race = filepath.Join(dir, "sched"), filepath.Join(dir, "schedrace")
		build := func(to string, args ...string) error {
			args = append([]string{"build", "-overlay", filepath.Join(dir, "overlay.json"), "-o",
				to}, args...)
			cmd := exec.Command("go", append(args, ".")...)
			cmd.Dir = filepath.Join(verifDir(), "sched")
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				return fmt.Errorf("%s: %s", err, out)
			}
			return nil
		}
		err = build(bin)
		if err == nil {
			err = build(race, "-race", "-gcflags=all=-d=checkptr=0")
		}
		if err == nil {
			return bin, race, notModelled, nil
		}
	}
	return "", "", "", err
}

type concGroup struct {
	Scope string
	Bound int
	Stmts bool
	Race  bool
	N     int
}

type concResult struct {
	Scenarios  int
	Executions int64
	Trans      int64
	Nodes      int64
	Outcomes   int64
	MaxPoints  int
	Truncated  bool
	Nondet     string
	Key        string
	Detail     string
}

// concExec runs the explorer. Returns what it wrote, what it wrote to stderr, and how it ended.
func concExec(bin string, limit time.Duration, args ...string) ([]byte, string, error, bool) {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4",
		"GOMAXPROCS=1")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if err := cmd.Start(); err != nil {
		return nil, "", err, false
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	late := !timer.Stop()
	return out.Bytes(), errOut.String(), err, late
}

func checkConc(r *Run) {
	r.Assume("preemptions happen before and after synchronization operations (and, where it says "+
		"so, before every statement); the memory model is the race detector's",
		"the btree library is not preempted, but the race detector covers it",
		"a program's outcome is right if it is the outcome of running its transactions one at a "+
			"time in some order on the same code")

	dir, err := os.MkdirTemp("", "mc-sched-")
	if err != nil {
		panic(err)
	}
	if os.Getenv("MC_KEEP") == "" {
		defer os.RemoveAll(dir)
	}

	bin, race, notModelled, err := concBuild(dir)
	if err != nil || notModelled != "" {
		fmt.Printf("property=%s: not explored: %s %v\n", r.ID, notModelled, err)
		r.truncated = append(r.truncated, "everything: "+notModelled)
		return
	}
	out, errOut, err, _ := concExec(bin, 20*time.Second, r.ID, r.Tier)
	var gs []concGroup
	if err != nil || json.Unmarshal(out, &gs) != nil {
		panic(fmt.Sprintf("unable to list groups: %v: %s", err, errOut))
	}

	r.reTries = 0 // failures are confirmed here
	var execs, outcomes, scens, nodes int64
	maxPoints := 0
	for gdx, g := range gs {
		gdx, g := gdx, g
		scope := fmt.Sprintf("%s (at most %d preemptions)", g.Scope, g.Bound)
		secs := 45
		bin := bin
		if g.Race {
			bin = race
		}
		var gexecs int64
		one := func(w *Worker, i int64, first bool) (key, detail string) {
			w.since.Store(time.Now().UnixNano())
			out, errOut, err, late := concExec(bin, time.Duration(secs+10)*time.Second, r.ID, r.Tier,
				strconv.Itoa(gdx), strconv.FormatInt(i, 10), strconv.Itoa(secs))
			var res concResult
			if err == nil {
				err = json.Unmarshal(out, &res)
			}
			if len(errOut) > 6000 {
				errOut = errOut[:6000]
			}
			if late {
				// Nothing can be said: perhaps the code waits in a way which is not modelled.
				r.mu.Lock()
				r.truncated = append(r.truncated, fmt.Sprintf("%s#%d", scope, i))
				r.mu.Unlock()
				return "", ""
			}
			if err != nil {
				return "crash", fmt.Sprintf("the explorer ended: %v\n%s", err, errOut)
			}
			if !first {
				return res.Key, res.Detail + "\n" + errOut
			}
			r.trans.Add(res.Trans)
			r.mu.Lock()
			gexecs += res.Executions
			execs += res.Executions
			nodes += res.Nodes
			outcomes += res.Outcomes
			scens += int64(res.Scenarios)
			if res.MaxPoints > maxPoints {
				maxPoints = res.MaxPoints
			}
			if res.Truncated || res.Nondet != "" {
				r.truncated = append(r.truncated, fmt.Sprintf("%s#%d %s", scope, i, res.Nondet))
			}
			r.mu.Unlock()
			return res.Key, res.Detail + "\n" + errOut
		}
		r.Cases(scope, int64(g.N), func(w *Worker, i int64) {
			key := ""
			for t := 0; t < 3; t++ {
				k, d := one(w, i, t == 0)
				if k == "" || t > 0 && k != key {
					// Nothing is wrong, or what seemed wrong is not so each time.
					return
				}
				key = k
				if t == 2 {
					w.Fail(k, "%s", d)
				}
			}
		})
		r.Sample(fmt.Sprintf("%s: %d schedules run to the end", scope, gexecs))
	}
	r.extra = map[string]any{
		"programs":                      scens,
		"schedules":                     execs,
		"states":                        nodes,
		"distinct_outcomes":             outcomes,
		"max_choice_points":             maxPoints,
		"traces_validated_against_impl": execs,
		"states_note": "states are the distinct nodes of the schedule trees; every schedule is run " +
			"on the implementation itself",
	}
}
