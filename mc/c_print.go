package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

// printExprs checks the printing of every expression with up to a number of operators, with and
// without parentheses, and of every kind of literal.
func printExprs(r *Run) {
	for n := 1; n <= Pick(r, 3, 4); n++ {
		bin, un := repOps, []string{"-1", "not", "in", "isnull", "any"}
		if n == 4 {
			bin, un = []string{"||", "*", "-", "=", "or"}, []string{"-1", "not", "in", "any"}
		}
		ts := allTrees(n, bin, un)
		r.Cases(fmt.Sprintf("expressions/%d", n), int64(len(ts))<<(n-1), func(w *Worker, i int64) {
			var pair, leaf int
			text := "select " + strings.Join(ts[i>>(n-1)].items(uint(i&(1<<(n-1)-1)), &pair, &leaf, nil), " ")
			printText(w, "expression", text)
		})
	}

	lits := []string{"1", "-1", "9223372036854775807", "-9223372036854775808", "0", "1.0", "-2.0", "0.5",
		"-0.0", "0.000001", "123456789.125", "99999999999999999999.0", "0.1", "''", "'a'", "''''", "'a''b'",
		"'\n'", `e'\t\\n'`, `'\'`, "'--'", "'/*'", "'é𐍈'", "b''", `b'a\x00\xff'`, "x'0aFF'", "true", "false", "null"}
	nl, no := int64(len(lits)), int64(len(allOps))
	r.Cases("literals", nl*nl*no*5, func(w *Worker, i int64) {
		ds := Digits(i, nl, nl, no, 5)
		a, b, op := lits[ds[0]], lits[ds[1]], allOps[ds[2]]
		var text string
		switch ds[3] {
		case 0:
			text = fmt.Sprintf("select %s %s %s", a, op, b)
		case 1:
			text = fmt.Sprintf("values (- %s, not %s)", a, b)
		case 2:
			text = fmt.Sprintf("select f(%s, %s) where x is null", a, b)
		case 3:
			text = fmt.Sprintf("select a %s - (%s %s b)", op, a, op)
		case 4:
			text = fmt.Sprintf("update t set a = %s, b = - - %s where c %s any(values (%s))", a, b, op, a)
		}
		printText(w, "literal", text)
	})

	vals := literalValues(r)
	r.Cases("values", int64(len(vals))*3, func(w *Worker, i int64) {
		text := fmt.Sprintf([]string{"select %s", "values (%s)", "update t set a = %s where b"}[i%3], vals[i/3].text)
		printText(w, "value", text)
	})
}

// literalValue is a literal as SQL text, the value it stands for, and that value as text when it is
// the value of a variable.
type literalValue struct {
	text string
	val  Value
	set  string
}

// literalValues are literals: every byte, every short string of one character, integers around
// powers of two, and decimals.
func literalValues(r *Run) []literalValue {
	lits := []literalValue{{"null", nil, "NULL"}, {"true", T(true), "true"}, {"false", T(false), "false"}}
	for b := 0; b < 256; b++ {
		h := fmt.Sprintf("%02x", b)
		lits = append(lits, literalValue{"x'" + h + "'", B{byte(b)}, `'\x` + h + `'`},
			literalValue{"x'" + strings.ToUpper(h) + "00" + h + "'", B{byte(b), 0, byte(b)}, `'\x` + h + "00" + h + `'`},
			literalValue{`b'\x` + h + `'`, B{byte(b)}, `'\x` + h + `'`})
	}
	add := func(s string) {
		lits = append(lits, literalValue{"'" + strings.ReplaceAll(s, "'", "''") + "'", S(s), s})
	}
	add("")
	for c := rune(1); c < 0x800; c++ {
		add(string(c))
		if c < 0x100 {
			add("a" + string(c))
			add(string(c) + "'")
			add(string([]rune{c, c}))
		}
	}
	// Every string of characters which mean something in a string, up to four, and many of each.
	marks := []string{"'", "\\", "a", "\n", "é", "\"", ";", "x'"}
	for n := 2; n <= Pick(r, 4, 5); n++ {
		for i := int64(0); i < Power(int64(len(marks)), n); i++ {
			var s string
			for _, d := range SeqDigits(i, int64(len(marks)), n, nil) {
				s += marks[d]
			}
			add(s)
		}
	}
	for _, n := range []int{5, 17, 64, 300, 5000} {
		for _, m := range marks {
			add(strings.Repeat(m, n))
			add(strings.Repeat(m, n) + "a'" + m)
		}
	}
	for _, c := range []rune{0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF} {
		add(string(c))
	}
	for k := 0; k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			n := int64(1)<<k + d
			s := fmt.Sprint(n)
			lits = append(lits, literalValue{s, I(n), s}, literalValue{"0" + s, I(n), s})
		}
	}
	lits = append(lits, literalValue{"9223372036854775807", I(math.MaxInt64), "9223372036854775807"})
	for m := 1; m < Pick(r, 100, 1000); m++ {
		lits = append(lits, literalValue{fmt.Sprintf("%d.0", m), F(m), fmt.Sprint(m)})
		for _, e := range []int{1, 2, 3, 7, 20} {
			s := fmt.Sprintf("%0*d", e+1, m)
			s = s[:len(s)-e] + "." + s[len(s)-e:]
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				panic(err)
			}
			lits = append(lits, literalValue{s, F(f), strconv.FormatFloat(f, 'g', -1, 64)})
		}
	}
	// Floats around powers of two, and long decimals which are read as the closest one.
	for k := -1074; k <= 1023; k += Pick(r, 31, 3) {
		for d := -1; d <= 1; d++ {
			f := math.Ldexp(1, k)
			if d != 0 {
				f = math.Nextafter(f, float64(d)*math.Inf(1))
			}
			if f == 0 || math.IsInf(f, 0) {
				continue
			}
			s := strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			long := strconv.FormatFloat(f, 'f', 1100, 64)
			lits = append(lits, literalValue{s, F(f), strconv.FormatFloat(f, 'g', -1, 64)},
				literalValue{long, F(f), strconv.FormatFloat(f, 'g', -1, 64)})
		}
	}
	return lits
}

// parseLiterals checks the values of literals where a literal is the value of a variable, a
// database, an expression, and a default.
func parseLiterals(r *Run) {
	vals := literalValues(r)
	// References of many names, where an expression may be.
	places := []string{"select %s", "select %s as x from t", "values (1, %s, 2)", "select * from t where %s", "update t set a = %s", "select f(1, %s)",
		"select 1 + %s || 2", "select * from t group by %s having true", "delete from t where not %s = 1", "create table t (a int check (%s))"}
	r.Cases("references", 40*int64(len(places))*2, func(w *Worker, i int64) {
		n, place, sp := int(i%40)+1, places[i/40%int64(len(places))], []string{".", " . "}[i/40/int64(len(places))]
		var ref sql.Ref
		var texts []string
		for k := 0; k < n; k++ {
			nam := []string{"a", "b", `"Q"`, "count", "é"}[(k+n)%5]
			texts = append(texts, nam)
			if nam[0] == '"' {
				ref = append(ref, types.ID("Q", true))
			} else {
				ref = append(ref, types.ID(nam, false))
			}
		}
		text := fmt.Sprintf(place, strings.Join(texts, sp))
		// The same as with one name, which is then replaced.
		ps, qs := parseAll(text, 2), parseAll(fmt.Sprintf(place, "zz"), 2)
		w.r.trans.Add(2)
		if len(ps) != 1 || len(qs) != 1 || ps[0].err != nil || qs[0].err != nil {
			w.Fail("reference/error", "%s: got %v; with one name %v", text, ps, qs)
			return
		}
		got, one := dumpAST(ps[0].stmt, true), dumpAST(qs[0].stmt, true)
		want := strings.ReplaceAll(one, dumpAST(sql.Ref{types.ID("zz", false)}, true), dumpAST(ref, true))
		if got != want || !strings.Contains(one, dumpAST(sql.Ref{types.ID("zz", false)}, true)) {
			w.Fail("reference", "%s: got %s; want %s", text, got, want)
		}
	})

	a := types.ID("a", false)
	r.Cases("literals", int64(len(vals)), func(w *Worker, i int64) {
		l := vals[i]
		for k, f := range []string{"set a = %s", "set a to %s", "use %s", "select %s", "values (1, %s)",
			"update t set a = %s", "create table t (a int default %s)"} {
			text := fmt.Sprintf(f, l.text)
			w.r.trans.Add(1)
			ps := parseAll(text, 2)
			if len(ps) != 1 || ps[0].err != nil {
				w.Fail("literal/error", "%s: got %v", text, ps)
				continue
			}
			var got Value
			var have bool
			expr := func(e sql.Expr) {
				if l, ok := e.(sql.Literal); ok {
					got, have = l.Value, true
				}
			}
			switch st := ps[0].stmt.(type) {
			case *sql.Set:
				v := types.DATABASE
				if k < 2 {
					v = a
				}
				if st.Variable != v || st.Value != l.set {
					w.Fail("literal/set", "%s: got %s and %q; want %s and %q", text, st.Variable, st.Value, v, l.set)
				}
				continue
			case *sql.Select:
				if len(st.Results) == 1 {
					if er, ok := st.Results[0].(sql.ExprResult); ok {
						expr(er.Expr)
					}
				}
			case *sql.Values:
				if len(st.Expressions) == 1 && len(st.Expressions[0]) == 2 {
					expr(st.Expressions[0][1])
				}
			case *sql.Update:
				if len(st.ColumnUpdates) == 1 {
					expr(st.ColumnUpdates[0].Expr)
				}
			case *sql.CreateTable:
				if len(st.ColumnDefaults) == 1 {
					expr(st.ColumnDefaults[0])
				}
			}
			if !have || canon(got) != canon(l.val) {
				w.Fail("literal/value", "%s: got %s in %s; want %s", text, fmtValue(got), dumpAST(ps[0].stmt, false), fmtValue(l.val))
			}
		}
		w.r.State(hash64(l.text))
	})
}

func printText(w *Worker, name, text string) {
	ps := parseAll(text, 1)
	if len(ps) == 1 && ps[0].err == nil {
		checkPrint(w, name, ps[0].stmt, true)
	}
}
