// C03, C04, C05, C06, C11, C25, C26, C28: what is large: rows, values, keys, and expressions.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// bigSizes are sizes around each power of two.
func bigSizes(from, to int) []int {
	var ns []int
	for k := from; k <= to; k++ {
		ns = append(ns, 1<<k-1, 1<<k, 1<<k+1)
	}
	return ns
}

// bigScans reads a table of many rows, all of it and from or to many places.
func bigScans(r *Run) {
	n := Pick(r, 20000, 140000)
	defs := longTables()[:2]
	places := []int{-1}
	for _, k := range bigSizes(9, 18) {
		if k < n {
			places = append(places, k)
		}
	}
	places = append(places, n-1)
	r.Cases("many", int64(len(defs))*8, func(w *Worker, i int64) {
		def := defs[i%int64(len(defs))]
		part := int(i / int64(len(defs)))
		st, _ := newStore()
		tx := st.Begin()
		defer tx.Rollback()
		if err := tx.CreateTable(ctx, def.tid, def.name, def.cols, def.types, def.key); err != nil {
			w.Fail("create", "%s", err)
			return
		}
		tbl, err := tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
		if err != nil {
			w.Fail("open", "%s", err)
			return
		}
		for k := 0; k < n; k += 1000 {
			var rows []types.Row
			for x := k; x < k+1000 && x < n; x++ {
				rows = append(rows, longRow(def, x))
			}
			if err := tbl.Insert(ctx, rows); err != nil {
				w.Fail("insert", "rows from %d: %s", k, err)
				return
			}
		}
		for px, p := range places {
			if px%8 != part {
				continue
			}
			for _, max := range []bool{false, true} {
				for _, step := range []int{1, 3} {
					from, to := 0, n
					var minRow, maxRow types.Row
					if p >= 0 && max {
						to, maxRow = p+1, longRow(def, p)
					} else if p >= 0 {
						from, minRow = p, longRow(def, p)
					}
					var pred storage.Predicate
					if step > 1 {
						pred = mkPredFn(def.types[1], 1, func(v Value) bool { return int(v.(I))%3 == 0 })
					}
					rows, err := tbl.Rows(ctx, nil, minRow, maxRow, pred)
					if err != nil {
						w.Fail("many", "rows: %s", err)
						return
					}
					for k := from; k < to; k++ {
						if k%step != 0 {
							continue
						}
						if row, err := rows.Next(ctx); err != nil || !sameRow(row, longRow(def, k)) {
							w.Fail("many", "%d rows, key %v, from %s to %s, each %d: got %s, %v; want %s", n, def.key, fmtRow(minRow),
								fmtRow(maxRow), step, fmtRow(row), err, fmtRow(longRow(def, k)))
							break
						}
					}
					if row, err := rows.Next(ctx); err != io.EOF {
						w.Fail("many", "%d rows, key %v, from %s to %s, each %d: got %s, %v; want the end", n, def.key, fmtRow(minRow),
							fmtRow(maxRow), step, fmtRow(row), err)
					}
					rows.Close(ctx)
					w.r.trans.Add(int64(to - from))
				}
			}
		}
	})
}

// bigKeys inserts and updates rows whose keys are long and nearly the same.
func bigKeys(r *Run) {
	ns := append([]int{3, 5, 6, 12, 100, 1000, 5000}, bigSizes(3, Pick(r, 12, 17))...)
	fills := []string{"a", "\x00", "\xff", "ab\x00\x01"}
	r.Cases("long-keys", int64(len(ns)*len(fills))*8, func(w *Worker, i int64) {
		g := Digits(i, int64(len(ns)), int64(len(fills)), 8)
		n, fill := ns[g[0]], fills[g[1]]
		str, rev, second := g[2]&1 == 1, g[2]&2 == 2, g[2]&4 == 4
		ct := types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize, NotNull: true}
		if str {
			ct.Type = types.StringType
		}
		key := []types.ColumnKey{ck(0, rev)}
		if second {
			key = []types.ColumnKey{ck(1, false), ck(0, rev)}
		}
		def := mkdef(40, "big", cts(ct, intNN, bytes4N), key...)
		base := strings.Repeat(fill, n/len(fill)+1)[:n]
		mk := func(s string) Value {
			if str {
				return S(s)
			}
			return B(s)
		}
		texts := []string{base, base + "\x00", base + "\x01", base + "a", base + "b", base[:n-1], base[:n-1] + "c", base[:n-1] + "\x01d",
			base[:n/2] + "e" + base[n/2+1:], "f" + base[1:]}
		d := newDrv(w)
		d.begin()
		d.create(def)
		for k, s := range texts {
			// Each is new, unless it is the same text; then all are there, twice.
			d.insert(40, vals(mk(s), I(1), B{byte(k)}))
		}
		d.check()
		for _, s := range texts {
			d.insert(40, vals(mk("g"), I(1), nil), vals(mk(s), I(1), nil))
			if d.dead {
				return
			}
		}
		d.check()
		for _, s := range texts[:4] {
			d.change(40, eqCol(2, B{9}), false, cols(0), vals(mk(s)), false, "the last")
			if d.dead {
				return
			}
		}
		d.check()
		d.change(40, eqCol(2, B{4}), false, cols(0), vals(mk(base+"z")), false, "the fifth")
		d.change(40, eqCol(2, B{3}), true, nil, nil, false, "the fourth")
		d.check()
		d.commit()
		d.check()
	})
}

// bigValues stores values which are as long as a column, longer, and shorter.
func bigValues(r *Run) {
	sizes := append([]int{1, 2, 3, 5}, bigSizes(3, Pick(r, 16, 18))...)
	r.Cases("long-values", int64(len(sizes))*4, func(w *Worker, i int64) {
		size := sizes[i/4]
		ct := types.ColumnType{Type: types.BytesType, Size: uint32(size), Fixed: i&2 == 2}
		if i&1 == 1 {
			ct.Type = types.StringType
		}
		def := mkdef(30, "lv", cts(intNN, ct), ck(0, false))
		d := newDrv(w)
		d.begin()
		d.create(def)
		d.insert(30, vals(I(0), nil))
		for k, n := range []int{0, size / 2, size - 1, size, size + 1, 2 * size, 256, 65535, 65536, 65537, 65536 + size - 1, 65536 + size, 65536 + size + 1,
			131072 + size/2} {
			s := strings.Repeat("x", n)
			for _, v := range []Value{S(s), B(s)} {
				d.insert(30, vals(I(k+1), v))
				d.change(30, eqCol(0, I(0)), false, cols(1), vals(v), false, "the first")
				if d.dead {
					return
				}
			}
			if n < 300 || k%4 == 0 {
				d.check()
			}
		}
		d.commit()
		d.check()
	})
}

// bigMemory overwrites all memory which was given to a store or got from it, for values of every length.
func bigMemory(r *Run) {
	var ns []int
	for n := 0; n <= 300; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, bigSizes(9, Pick(r, 16, 20))...)
	blob := types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}
	defs := []*tdef{mkdef(40, "m0", cts(intNN, blob, blob), ck(0, false)), mkdef(40, "m1", cts(intNN, blob, blob), ck(1, false)),
		mkdef(40, "m2", cts(intNN, blob, blob), ck(2, true), ck(0, false))}
	sels := [][]types.ColumnNum{nil, cols(1), cols(2, 1, 2)}
	r.Cases("long-values", int64(len(ns)*len(defs)*len(sels))*2, func(w *Worker, i int64) {
		g := Digits(i, int64(len(ns)), int64(len(defs)), int64(len(sels)), 2)
		n, def, sel := ns[g[0]], defs[g[1]], sels[g[2]]
		st, _ := newStore()
		tx := st.Begin()
		defer func() {
			tx.Rollback()
		}()
		if err := tx.CreateTable(ctx, def.tid, def.name, def.cols, def.types, def.key); err != nil {
			w.Fail("create", "%s", err)
			return
		}
		tbl, err := tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
		if err != nil {
			w.Fail("open", "%s", err)
			return
		}
		b := func(c string) B { return B(strings.Repeat(c, n)) }
		spoil := func(row []Value) {
			for _, v := range row {
				if b, ok := v.(B); ok {
					for k := range b {
						b[k] = '!'
					}
				}
			}
			for k := range row {
				row[k] = I(-1)
			}
		}
		want := func(what string, row []Value) bool {
			w.r.trans.Add(1)
			for t := 0; t < 2; t++ {
				rows, err := tbl.Rows(ctx, sel, nil, nil, nil)
				if err != nil {
					w.Fail("memory", "%s: rows: %s", what, err)
					return false
				}
				got, err := rows.Next(ctx)
				exp := row
				if sel != nil {
					exp = project([][]Value{row}, sel)[0]
				}
				rows2, _ := tbl.Rows(ctx, sel, nil, nil, nil)
				got2, _ := rows2.Next(ctx)
				same := err == nil && sameRow(got, exp) && sameRow(got2, exp)
				if same {
					spoil(got)
					same = sameRow(got2, exp)
				}
				if same && g[3] == 1 {
					// The columns of a row are not the same memory, either.
					if b, ok := got2[0].(B); ok && len(b) > 0 && len(got2) > 1 {
						b[0] = '?'
						same = sameRow(got2[1:], exp[1:])
					}
				}
				spoil(got2)
				rows.Close(ctx)
				rows2.Close(ctx)
				if !same {
					w.Fail("memory", "%s: a value of %d bytes of a table with key %v, columns %v: memory is shared", what, n, def.key, sel)
					return false
				}
			}
			return true
		}
		ins := vals(I(1), b("a"), b("b"))
		if err := tbl.Insert(ctx, []types.Row{ins}); err != nil {
			w.Fail("insert", "%s", err)
			return
		}
		spoil(ins)
		if !want("insert", vals(I(1), b("a"), b("b"))) {
			return
		}
		rows, err := tbl.Rows(ctx, sel, nil, nil, nil)
		if err != nil {
			w.Fail("memory", "rows: %s", err)
			return
		}
		rows.Next(ctx)
		ref, err := rows.Current()
		if err != nil {
			w.Fail("memory", "current: %s", err)
			rows.Close(ctx)
			return
		}
		upd := vals(b("c"), b("d"))
		c := cols(2, 1)
		exp := vals(I(1), b("d"), b("c"))
		if g[3] == 1 {
			upd, c, exp = vals(b("c")), cols(2), vals(I(1), b("a"), b("c"))
		}
		if err := ref.Update(ctx, c, upd); err != nil {
			w.Fail("update", "%s", err)
		}
		spoil(upd)
		for k := range c {
			c[k] = 0
		}
		rows.Close(ctx)
		if !want("update", exp) {
			return
		}
		if err := tx.Commit(ctx); err != nil {
			w.Fail("commit", "%s", err)
		}
		tx = st.Begin()
		tbl, err = tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
		if err != nil {
			w.Fail("open", "%s", err)
			return
		}
		want("commit", exp)
	})
}

// bigCompares compares long strings and bytes which are different at one place.
func bigCompares(r *Run) {
	ns := append([]int{3, 5, 6, 7}, bigSizes(3, Pick(r, 16, 20))...)
	fills := []string{"a", "\x00", "\xff", "é", "ab"}
	r.Cases("long", int64(len(ns)*len(fills))*2, func(w *Worker, i int64) {
		g := Digits(i, int64(len(ns)), int64(len(fills)), 2)
		n, fill := ns[g[0]], fills[g[1]]
		base := strings.Repeat(fill, n/len(fill)+1)[:n]
		texts := []string{base}
		for _, c := range []string{"\x00", "\x01", "a", "b", "\xff"} {
			texts = append(texts, base+c, base[:n-1]+c, base[:n/2]+c+base[n/2+1:], c+base[1:], base[:n/3]+c)
		}
		var vs []Value
		for _, s := range texts {
			if g[2] == 0 {
				vs = append(vs, S(s))
			} else {
				vs = append(vs, B(s))
			}
		}
		vs = append(vs, S("a"), B("a"), nil, I(1))
		for _, a := range vs {
			for _, b := range vs {
				w.r.trans.Add(1)
				if got, want := sign(types.Compare(a, copyValue(b))), refCompare(a, b); got != want {
					x, y := fmtValue(a), fmtValue(b)
					if len(x) > 100 {
						x = x[:100]
					}
					if len(y) > 100 {
						y = y[:100]
					}
					w.Fail("long", "%d characters: compare %s and %s: got %d; want %d", n, x, y, got, want)
				}
			}
		}
	})
}

// deepForms are ways to make an expression from another.
var deepForms = []struct {
	before, after string
	fn            func(e sql.Expr) sql.Expr
}{
	{"(", ")", func(e sql.Expr) sql.Expr { return &sql.UnaryExpr{Op: sql.NoOp, Expr: e} }},
	{"- ", "", func(e sql.Expr) sql.Expr { return &sql.UnaryExpr{Op: sql.NegateOp, Expr: e} }},
	{"not ", "", func(e sql.Expr) sql.Expr { return &sql.UnaryExpr{Op: sql.NotOp, Expr: e} }},
	{"f(", ")", func(e sql.Expr) sql.Expr { return &sql.SExpr{Name: id("f"), Args: []sql.Expr{e}} }},
	{"f(b, ", ", c)", func(e sql.Expr) sql.Expr {
		return &sql.SExpr{Name: id("f"), Args: []sql.Expr{sql.Ref{id("b")}, e, sql.Ref{id("c")}}}
	}},
	{"", " + c", func(e sql.Expr) sql.Expr {
		return &sql.BinaryExpr{Op: sql.AddOp, Left: e, Right: sql.Ref{id("c")}}
	}},
	{"", " and c", func(e sql.Expr) sql.Expr {
		return &sql.BinaryExpr{Op: sql.AndOp, Left: e, Right: sql.Ref{id("c")}}
	}},
	{"b * (", ")", func(e sql.Expr) sql.Expr {
		return &sql.BinaryExpr{Op: sql.MultiplyOp, Left: sql.Ref{id("b")}, Right: &sql.UnaryExpr{Op: sql.NoOp, Expr: e}}
	}},
	{"(", ") or b", func(e sql.Expr) sql.Expr {
		return &sql.BinaryExpr{Op: sql.OrOp, Left: &sql.UnaryExpr{Op: sql.NoOp, Expr: e}, Right: sql.Ref{id("b")}}
	}},
	{"(select ", ")", func(e sql.Expr) sql.Expr {
		return &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: e}}}}
	}},
	{"exists(values (", "))", func(e sql.Expr) sql.Expr {
		return &sql.Subquery{Op: sql.Exists, Stmt: &sql.Values{Expressions: [][]sql.Expr{{e}}}}
	}},
}

// deepExprs makes expressions which are nested deeply, of one form or of two in turn.
func deepExprs(r *Run, fn func(w *Worker, text string, e sql.Expr)) {
	var depths []int
	for n := 0; n <= 40; n++ {
		depths = append(depths, n)
	}
	depths = append(depths, 50, 99, 100, 101, 199, 200, 201, 300, 499, 500, 501)
	depths = append(depths, bigSizes(6, 10)...)
	nf := int64(len(deepForms))
	r.Cases("deep", int64(len(depths))*nf*nf, func(w *Worker, i int64) {
		g := Digits(i, int64(len(depths)), nf, nf)
		n := depths[g[0]]
		if n > 300 && g[1] != g[2] && !r.Thorough() {
			return
		}
		var e sql.Expr = sql.Ref{id("a")}
		var before, after []string
		var order []int // from the inside
		for k := 0; k < n; k++ {
			order = append(order, g[1+k%2])
		}
		// An operator without parentheses takes what is next to it: it must not have a form with a lower
		// precedence inside, or be inside of a prefix operator.
		loose := map[int]bool{1: true, 2: true, 5: true, 6: true, 8: true}
		if g[1] != g[2] && loose[g[1]] && loose[g[2]] {
			return
		}
		if g[1] != g[2] && (g[1] == 7 && loose[g[2]] || g[2] == 7 && loose[g[1]]) {
			return
		}
		for _, k := range order {
			f := deepForms[k]
			e = f.fn(e)
			before = append(before, f.before)
			after = append(after, f.after)
		}
		var sb strings.Builder
		for k := len(before) - 1; k >= 0; k-- {
			sb.WriteString(before[k])
		}
		sb.WriteString("a")
		for _, s := range after {
			sb.WriteString(s)
		}
		w.r.trans.Add(int64(n))
		fn(w, sb.String(), e)
	})
}

// shorter is at most the start and the end of a text.
func shorter(s string) string {
	if len(s) > 200 {
		return s[:100] + fmt.Sprintf(" ...%d... ", len(s)-200) + s[len(s)-100:]
	}
	return s
}
