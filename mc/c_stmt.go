// C24, C26, C27, C28, C29, C30: statements.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
)

func init() {
	checks["C26"] = checkC26
	checks["C28"] = checkC28
}

// parseAll parses all of the text.
type parsed struct {
	stmt sql.Stmt
	err  error
}

func parseAll(text string, limit int) []parsed {
	p := parser.NewParser(strings.NewReader(text), "test")
	var ps []parsed
	for len(ps) <= limit {
		stmt, err := p.Parse()
		if err == io.EOF {
			return ps
		}
		ps = append(ps, parsed{stmt, err})
	}
	return ps
}

// zeroLine removes what depends on where a statement is.
func zeroLine(st sql.Stmt) {
	if c, ok := st.(*sql.Copy); ok {
		c.FromLine = 0
	}
}

func isCopy(st sql.Stmt) bool {
	_, ok := st.(*sql.Copy)
	return ok
}

// everyStmt calls fn for the statements of every family, with bounds which are less than the usual.
func everyStmt(r *Run, less int, fn func(w *Worker, f *family, g *gen, st sql.Stmt, i, n int64)) {
	for _, f := range families {
		for _, flip := range []bool{false, true} {
			d, name := Pick(r, f.dq, f.dt), f.name
			if flip {
				d, name = Pick(r, f.fq, f.ft), f.name+"/full"
			}
			if d < noBound {
				if d -= less; d < 0 {
					d = 0
				}
			}
			vecs := enumerate(d, flip, f.build)
			n := int64(len(vecs))
			r.Cases(name, n, func(w *Worker, i int64) {
				g, st := f.generate(vecs[i], flip, nil)
				if g.bad == "" {
					w.r.State(hash64(name, string(vecs[i])))
					fn(w, f, g, st, i, n)
				}
			})
		}
	}
	for _, f := range families {
		largeStmts(r, f, fn)
	}
}

// largeStmts calls fn for statements with one long list each.
func largeStmts(r *Run, f *family, fn func(w *Worker, f *family, g *gen, st sql.Stmt, i, n int64)) {
	type large struct {
		vec []uint8
		big bigList
	}
	var all []large
	for _, vec := range enumerate(Pick(r, 1, 2), false, f.build) {
		g, _ := f.generate(vec, false, nil)
		devs := 0
		for _, c := range vec {
			if c != 0 {
				devs++
			}
		}
		for at := range g.sizes {
			for _, n := range []int{17, 65, 257, 1025} {
				if n > 100 && devs > 1 || n > 1000 && devs > 0 {
					continue
				}
				for v := 0; v < 12; v++ {
					if v < 2 || n == 17 {
						all = append(all, large{vec, bigList{at, n, v}})
					}
				}
			}
		}
	}
	if len(all) == 0 {
		return
	}
	name, n := f.name+"/large", int64(len(all))
	r.Cases(name, n, func(w *Worker, i int64) {
		l := all[i]
		g, st := f.generate(l.vec, false, &l.big)
		if g.bad == "" {
			w.r.State(hash64(name, string(l.vec), fmt.Sprint(l.big)))
			fn(w, f, g, st, i, n)
		}
	})
}

func checkC26(r *Run) {
	r.Assume("the statements are those of the generator in sqlgen.go, with up to a bound of choices other than the first alternative")
	everyStmt(r, 0, func(w *Worker, f *family, g *gen, want sql.Stmt, i, n int64) {
		exp := dumpAST(want, false)
		for mode := 0; mode < renderModes; mode++ {
			text := render(g.items, mode)
			end := []string{"", ";", " ; "}[mode]
			if isCopy(want) {
				end = ";\n\\.\n"
			}
			ps := parseAll(text+end, 3)
			w.r.trans.Add(int64(len(g.items)))
			if len(ps) == 0 {
				w.Fail(f.name+"/nothing", "%s: no statement", text)
				return
			}
			if ps[0].err != nil {
				w.Fail(f.name+"/error", "%s: %s", text, ps[0].err)
				return
			}
			zeroLine(ps[0].stmt)
			if got := dumpAST(ps[0].stmt, false); got != exp {
				w.Fail(f.name+"/wrong", "%s:\n got %s\nwant %s", text, got, exp)
				return
			}
			if len(ps) != 1 && !isCopy(want) {
				w.Fail(f.name+"/more", "%s: more than one statement", text)
			}
		}
		if i%(n/2+1) == 1 {
			w.r.Sample(render(g.items, 0))
		}
	})
	parseLiterals(r)

	deepPlaces := []string{"select %s", "select * from t where %s group by b", "values (1, %s)", "update t set b = %s where a", "create table t (a int check (%s))"}
	deepExprs(r, func(w *Worker, text string, e sql.Expr) {
		for k, place := range deepPlaces {
			if k > 0 && len(text) > 1000 && k != len(text)%5 {
				continue
			}
			// The same as with a name, which is then replaced.
			t := fmt.Sprintf(place, text)
			ps, qs := parseAll(t, 2), parseAll(fmt.Sprintf(place, "zz"), 2)
			if len(ps) != 1 || len(qs) != 1 || ps[0].err != nil || qs[0].err != nil {
				w.Fail("deep/error", "%s: got %s", shorter(t), shorter(fmt.Sprint(ps)))
				return
			}
			zeroLine(ps[0].stmt)
			zeroLine(qs[0].stmt)
			got := dumpAST(ps[0].stmt, true)
			want := strings.ReplaceAll(dumpAST(qs[0].stmt, true), dumpAST(sql.Ref{id("zz")}, true), dumpAST(e, true))
			if got != want {
				w.Fail("deep", "%s: got %s; want %s", shorter(t), shorter(got), shorter(want))
				return
			}
		}
	})
}

func checkC28(r *Run) {
	everyStmt(r, 0, func(w *Worker, f *family, g *gen, want sql.Stmt, i, n int64) {
		text := render(g.items, 0)
		end := ""
		if isCopy(want) {
			end = ";\n\\.\n"
		}
		ps := parseAll(text+end, 0)
		if len(ps) == 0 || ps[0].err != nil {
			return // C26
		}
		checkPrint(w, f.name, ps[0].stmt, g.plain && !g.noParse)
		if i%(n/2+1) == 1 {
			w.r.Sample(ps[0].stmt.String())
		}
	})
	printExprs(r)
	deepExprs(r, func(w *Worker, text string, e sql.Expr) {
		if len(text) > 4000 && !r.Thorough() {
			return
		}
		printText(w, "deep", "select "+text+" as x from t where "+text)
	})
}

// checkPrint checks that a statement can be printed, and if it is SQL, that it can be parsed.
func checkPrint(w *Worker, name string, st sql.Stmt, again bool) {
	before := dumpAST(st, true)
	s1 := st.String()
	w.r.trans.Add(1)
	if s2 := fmt.Sprint(st); s1 != s2 {
		w.Fail(name+"/differs", "printed as %q and then as %q", s1, s2)
	}
	if after := dumpAST(st, true); before != after {
		w.Fail(name+"/changed", "printing changed the statement\nfrom %s\nto %s", before, after)
	}
	if s1 == "" {
		w.Fail(name+"/empty", "printed as nothing: %s", before)
	}
	if !again {
		return
	}
	text := s1
	if isCopy(st) {
		text += ";\n"
	}
	ps := parseAll(text, 3)
	if len(ps) != 1 || ps[0].err != nil {
		w.Fail(name+"/reparse", "%s: got %v", s1, ps)
		return
	}
	zeroLine(ps[0].stmt)
	zeroLine(st)
	if got, want := dumpAST(ps[0].stmt, false), dumpAST(st, false); got != want {
		w.Fail(name+"/reparse-differs", "%s:\n got %s\nwant %s", s1, got, want)
	}
	if s3 := ps[0].stmt.String(); s3 != s1 {
		w.Fail(name+"/reprint", "%s: printed again as %s", s1, s3)
	}
}
