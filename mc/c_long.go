// C02, C03, C04, C05, C07, C09, C12, C17: long batches, long values, many columns, and several tables at once.
package main

import (
	"context"
	"fmt"
	"io"
	"strings"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// positions are the places, of n, where something may change.
func positions(n int) []int {
	var ps []int
	for p := 0; p < n; p++ {
		if n <= 24 || p < 2 || p >= n-2 || p == n/2 {
			ps = append(ps, p)
			continue
		}
		for b := 8; b <= 4096; b *= 2 {
			if p >= b-1 && p <= b+1 {
				ps = append(ps, p)
				break
			}
		}
	}
	return ps
}

// longBatches inserts many rows at once of which one is bad.
func longBatches(r *Run) {
	kdefs := []*tdef{
		mkdef(50, "asc", cts(intNN, str4N), ck(0, false)),
		mkdef(50, "desc", cts(intNN, str4N), ck(0, true)),
		mkdef(50, "two", cts(intNN, str4N), ck(1, true), ck(0, false)),
	}
	var sizes []int
	for n := 1; n <= 24; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)
	if r.Thorough() {
		sizes = append(sizes, 511, 512, 513, 1023, 1024, 1025)
	}
	type batch struct{ n, p int }
	var all []batch
	for _, n := range sizes {
		for _, p := range positions(n) {
			all = append(all, batch{n, p})
		}
	}
	const bads = 9
	if !r.Thorough() {
		kdefs = kdefs[1:]
	}
	r.Cases("batches", int64(len(all))*bads*int64(len(kdefs))*2, func(w *Worker, i int64) {
		g := Digits(i, int64(len(all)), bads, int64(len(kdefs)), 2)
		bt, bad, def, filled := all[g[0]], g[1], kdefs[g[2]], g[3] == 1
		row := func(k int) []Value {
			k = (k * 7919) % 100003
			return vals(I(k), S(fmt.Sprint(k%1000)))
		}
		d := newDrv(w)
		d.begin()
		d.create(def)
		if filled {
			var old [][]Value
			for k := 0; k < 20; k++ {
				old = append(old, row(5000+k))
			}
			d.insert(50, old...)
			d.commit()
			d.begin()
		}
		var rows [][]Value
		for k := 0; k < bt.n; k++ {
			rows = append(rows, row(k))
		}
		p := bt.p
		switch bad {
		case 0: // the first row again
			rows[p] = row(0)
		case 1: // the row before
			rows[p] = row(p - btoi(p > 0))
		case 2: // the last row
			rows[p] = row(bt.n - 1)
		case 3:
			rows[p] = row(5000 + p%20)
		case 4:
			rows[p] = vals(nil, S("x"))
		case 5:
			rows[p] = vals(I(200000), S("too long"))
		case 6:
			rows[p] = vals(S("x"), S("x"))
		case 7:
			rows[p] = vals(I(200000), S("x"), I(1))
		case 8:
			rows[p] = nil
		}
		d.insert(50, rows...)
		d.check()
		rows[p] = row(p)
		d.insert(50, rows...)
		d.check()
		d.insert(50, row(bt.n), row(p))
		d.check()
		if d.dead {
			return
		}
		if i%2 == 0 {
			d.commit()
		} else {
			d.rollback()
		}
		d.check()
	})
}

// badColumns inserts and updates rows of many columns, one of which is bad.
func badColumns(r *Run) {
	kinds := []struct {
		ct                   types.ColumnType
		good, conv, bad, big Value
	}{
		{types.ColumnType{Type: types.Int64Type, Size: 2}, I(7), S(" 8 "), S("x"), I(40000)},
		{types.ColumnType{Type: types.StringType, Size: 6}, S("abc"), I(-12), B("\xff"), S("abcdefg")},
		{types.ColumnType{Type: types.Float64Type, Size: 8}, F(0.5), S("1e3"), S("x"), T(true)},
		{types.ColumnType{Type: types.BoolType, Size: 1}, T(true), S("off"), S("maybe"), F(1)},
		{types.ColumnType{Type: types.BytesType, Size: 4, Fixed: true}, B("ab"), S("cd"), B("abcde"), S("abcde")},
		{types.ColumnType{Type: types.StringType, Size: 3, Fixed: true}, S("é"), F(2.5), S("日本語文"), T(false)},
	}
	type at struct{ n, p int }
	var all []at
	for _, n := range []int{2, 3, 5, 8, 9, 10, 16, 17, 18, 33, 64, 65, 66, 129, 256, 257, 258, 520} {
		for _, p := range positions(n) {
			if p > 0 {
				all = append(all, at{n, p})
			}
		}
	}
	const modes = 4
	r.Cases("columns", int64(len(all)*len(kinds))*modes, func(w *Worker, i int64) {
		g := Digits(i, int64(len(all)), int64(len(kinds)), modes)
		n, p, first, mode := all[g[0]].n, all[g[0]].p, g[1], g[2]
		kind := func(c int) int { return (c - p + first + len(kinds)*n) % len(kinds) }
		tt := cts(intNN)
		good, conv := vals(I(1)), vals(I(1))
		var sel []types.ColumnNum
		for c := 1; c < n; c++ {
			k := kinds[kind(c)]
			ct := k.ct
			ct.NotNull = c == p && mode&1 == 1 || c != p && c%4 == 1
			tt = append(tt, ct)
			good = append(good, k.good)
			if c%4 != 1 && c%5 == 0 {
				conv = append(conv, nil)
			} else {
				conv = append(conv, k.conv)
			}
			sel = append(sel, types.ColumnNum(c))
		}
		if mode >= 2 {
			for a, b := 0, len(sel)-1; a < b; a, b = a+1, b-1 {
				sel[a], sel[b] = sel[b], sel[a]
			}
		}
		pick := func(row []Value) []Value {
			var vs []Value
			for _, c := range sel {
				vs = append(vs, row[c])
			}
			return vs
		}
		def := mkdef(30, "cols", tt, ck(0, false))
		def.desc = fmt.Sprintf("%d columns", n)
		d := newDrv(w)
		d.begin()
		d.create(def)
		d.insert(30, good)
		d.check()
		k := kinds[kind(p)]
		for x, v := range []Value{k.bad, k.big, nil, k.conv} {
			row := append([]Value{}, conv...)
			row[p] = v
			d.change(30, always, false, sel, pick(row), false, "all")
			d.check()
			d.change(30, always, false, []types.ColumnNum{types.ColumnNum(p)}, vals(v), false, "all")
			d.check()
			row[0] = I(10 + x)
			d.insert(30, row)
			d.check()
			d.change(30, always, false, sel, pick(good), false, "all")
			d.check()
			if d.dead {
				return
			}
		}
		// A row which is too short, up to the column.
		short := append([]Value{}, good[:p]...)
		short[0] = I(20)
		d.insert(30, short)
		d.check()
		d.finish(i, 30)
	})
}

// dropSizes drops and creates again tables of many sizes.
func dropSizes(r *Run) {
	r.Cases("drop-sizes", 70*3, func(w *Worker, i int64) {
		g := Digits(i, 70, 3)
		n := g[0]
		if n > 40 {
			n = (n - 40) * 20
		}
		def := mkdef(60, "drops", cts(intNN, intN), ck(0, false))
		d := newDrv(w)
		d.begin()
		d.create(def)
		var rows [][]Value
		for k := 0; k < n; k++ {
			rows = append(rows, vals(I((k*7919)%1000003), I(k)))
		}
		if n > 0 {
			d.insert(60, rows...)
		}
		if g[1] != 1 {
			d.commit()
			d.begin()
		}
		if d.dead {
			return
		}
		d.drop(60)
		d.check()
		if g[1] == 2 {
			d.commit()
			d.begin()
		}
		if d.dead {
			return
		}
		d.create(def)
		d.check()
		d.insert(60, vals(I(7919), nil))
		d.check()
		d.finish(i, 60)
	})
}

var longSizes = []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023,
	1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537}

// longKeys compares the keys of long values, and keys of many columns.
func longKeys(r *Run, cmp func(w *Worker, key []types.ColumnKey, a, b []Value)) {
	fills := []string{"a", "\x00", "\x01", "\x02", "\xff", "\xfe", "\x00\x01", "ab\x00"}
	tails := []string{"", "\x00", "\x01", "\x02", "a", "b", "\xfe", "\xff", "\x00\x00", "\x01\x00"}
	r.Cases("long", int64(len(longSizes)*len(fills)*2), func(w *Worker, i int64) {
		g := Digits(i, int64(len(longSizes)), int64(len(fills)), 2)
		n, fill := longSizes[g[0]], fills[g[1]]
		if n > 5000 && g[1] > 2 && !r.Thorough() {
			return
		}
		base := strings.Repeat(fill, n/len(fill)+1)[:n]
		var vs []Value
		mk := func(s string) {
			if g[2] == 0 {
				vs = append(vs, S(s))
			} else {
				vs = append(vs, B(s))
			}
		}
		for _, t := range tails {
			mk(base + t)
		}
		for _, c := range []string{"\x00", "\x01", "a", "\xff"} {
			mk(base[:n-1] + c)
			mk(base[:n/2] + c + base[n/2+1:])
			mk(c + base[1:])
		}
		mk(base[:n-1])
		mk(base[:n/2])
		mk("")
		vs = append(vs, nil)
		for _, rev := range []bool{false, true} {
			for _, a := range vs {
				for _, b := range vs {
					cmp(w, []types.ColumnKey{ck(0, rev)}, []Value{a}, []Value{b})
					if n < 4000 {
						cmp(w, []types.ColumnKey{ck(0, rev), ck(1, !rev)}, []Value{a, I(1)}, []Value{b, I(2)})
					}
				}
			}
		}
	})

	// Rows which are different in one or two of many columns.
	widths := []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
	doms := [][]Value{
		{I(0), nil, I(-1), I(256)}, {S("a"), nil, S(""), S("a\x00")}, {F(0.5), nil, F(-1), F(nan)}, {T(true), nil, T(false), T(false)},
		{B("\xff"), nil, B(""), B("\xff\x00")},
	}
	r.Cases("columns", int64(len(widths)*len(doms))*4, func(w *Worker, i int64) {
		g := Digits(i, int64(len(widths)), int64(len(doms)), 4)
		n := widths[g[0]]
		var key []types.ColumnKey
		var row []Value
		for c := 0; c < n; c++ {
			k := c
			if g[2] >= 2 {
				k = n - 1 - c
			}
			key = append(key, ck(k, (c+g[2])%2 == 0))
			row = append(row, doms[(c+g[1])%len(doms)][0])
		}
		ps := positions(n)
		for _, p := range ps {
			for v := 1; v < 4; v++ {
				other := append([]Value{}, row...)
				other[p] = doms[(p+g[1])%len(doms)][v]
				cmp(w, key, row, other)
				cmp(w, key, other, row)
				for _, q := range []int{0, n / 2, n - 1} {
					if q == p {
						continue
					}
					both := append([]Value{}, row...)
					both[q] = doms[(q+g[1])%len(doms)][4-v]
					cmp(w, key, both, other)
				}
			}
		}
		// A key is the same whatever is not part of it, and however many keys were made before.
		if k1, k2 := encode.MakeKey(key, row), encode.MakeKey(key, append(copyRow(row), I(9))); string(k1) != string(k2) {
			w.Fail("columns", "%d columns: the key depends on a column which is not part of it", n)
		}
	})
}

// longConverts converts long strings and bytes to columns which are as long, or nearly.
func longConverts(r *Run) {
	var sizes []int
	for _, n := range longSizes {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, 131071, 131072, 131073)
	chars := []string{"a", "é", "日", "𝄞", "\x00"}
	r.Cases("long", int64(len(sizes)*len(chars)), func(w *Worker, i int64) {
		g := Digits(i, int64(len(sizes)), int64(len(chars)))
		n := sizes[g[0]]
		s := strings.Repeat(chars[g[1]], n)
		odd := s[:len(s)-len(chars[g[1]])] + "\xff"
		var cs []uint32
		for _, sz := range []int{1, 2, n / 2, n - 1, n, n + 1, len(s) - 1, len(s), len(s) + 1, 2 * n, n + 65536, n + 256} {
			cs = append(cs, uint32(sz))
		}
		if n > 65536 {
			cs = append(cs, uint32(n-65536), 65535, 65536)
		}
		cs = append(cs, types.MaxColumnSize)
		for _, v := range []Value{S(s), B(s), B(odd)} {
			for _, sz := range cs {
				for k := 0; k < 4; k++ {
					ct := types.ColumnType{Type: types.StringType, Size: sz, Fixed: k&1 == 1}
					if k&2 == 2 {
						ct.Type = types.BytesType
					}
					w.r.trans.Add(1)
					var got Value
					o, txt := try(func() error {
						var err error
						got, err = types.ConvertValue(ct, copyValue(v))
						return err
					})
					want, good := refConvert(ct, v)
					if good != (o == oOK) || (good && canon(got) != canon(want)) || o == oPanic {
						w.Fail("convert-long", "%d times %q as %T to %#v: got %s %.60s; want ok to be %v", n, chars[g[1]], v, ct, o,
							txt, good)
					}
				}
			}
		}
	})
}

// sameNames checks catalogs where databases, schemas, and tables have the same names.
func sameNames(r *Run, ns []string, starts ...string) {
	var ops, full []cop
	var add func(path string, depth int)
	add = func(path string, depth int) {
		for k, n := range ns {
			p := n
			if path != "" {
				p = path + "/" + n
			}
			c := cop{oCreate, p, false, (depth + k) % len(tableDefs)}
			full = append(full, c)
			ops = append(ops, c, cop{oDrop, p, false, 0})
			if depth < 2 {
				add(p, depth+1)
			}
		}
	}
	add("", 0)
	add("maho", 1)
	for k := len(full) - 1; k >= 0; k-- {
		if full[k].path == "maho" {
			full = append(full[:k], full[k+1:]...)
		}
	}
	ops = append(ops, cop{oCreate, "public", false, 0}, cop{oDrop, "public", false, 0}, cop{oCreate, "maho/maho", false, 0},
		cop{oCreate, "maho/public/public", false, 1}, cop{oDrop, "maho/public", false, 0}, cop{oDrop, "maho", false, 0},
		cop{kind: oBegin}, cop{kind: oCommit}, cop{kind: oRollback})
	dbs, scs, tbls := append([]string{"maho"}, ns...), append([]string{"maho", "public"}, ns...), append([]string{"public"}, ns...)
	no := int64(len(ops))
	for _, start := range starts {
		start := start
		for n := 1; n <= 2+btoi(r.Thorough() && start == "all"); n++ {
			r.Cases(fmt.Sprintf("same/%s/%s/%d", ns[0], start, n), Power(no, n), func(w *Worker, i int64) {
				d := newCatDriver(w)
				if d == nil {
					return
				}
				if start == "all" {
					for _, op := range full {
						d.op(op)
					}
				}
				for _, k := range SeqDigits(i, no, n, nil) {
					d.op(ops[k])
				}
				if w.Failed() {
					return
				}
				w.r.State(hash64(d.committed.String()))
				if d.tx != nil {
					d.check(dbs, scs, tbls)
					d.rollback()
				}
				d.check(dbs, scs, tbls)
			})
		}
	}
}

// The other table of C07.
var otherDef = mkdef(41, "other", cts(intNN), ck(0, false))

// otherTable does something with another table while cursors may be open.
func (d *lifeDrv) otherTable(what string) {
	if !d.open {
		return
	}
	od := otherDef
	open := func() (storage.Table, error) {
		return d.tx.OpenTable(context.Background(), od.tid, od.name, od.cols, od.types, od.key)
	}
	switch what {
	case "create":
		if d.do("create other", !d.other, func() error {
			return d.tx.CreateTable(ctx, od.tid, od.name, od.cols, od.types, od.key)
		}) {
			d.other = true
		}
	case "drop":
		if d.do("drop other", d.other, func() error { return d.tx.DropTable(ctx, od.tid) }) {
			d.other = false
		}
	case "insert":
		d.do("insert other", d.other, func() error {
			tbl, err := open()
			if err != nil {
				return err
			}
			return tbl.Insert(ctx, []types.Row{{I(len(d.log))}})
		})
	case "scan":
		d.do("scan other", d.other, func() error {
			tbl, err := open()
			if err != nil {
				return err
			}
			rows, err := tbl.Rows(ctx, nil, nil, nil, nil)
			if err != nil {
				return err
			}
			if _, err := readAll(rows); err != nil {
				rows.Close(ctx)
				return err
			}
			return rows.Close(ctx)
		})
	case "stmt":
		d.do("next statement", true, func() error {
			d.tx.NextStmt()
			return nil
		})
	}
}

var rowCounts = []int{31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}

// longTables are three tables, with rows of which some are at the same distance, and neighbors.
func longTables() []*tdef {
	return []*tdef{
		mkdef(60, "la", cts(intNN, intN), ck(0, false)),
		mkdef(60, "ld", cts(intNN, intN), ck(0, true)),
		mkdef(60, "lt", cts(intNN, intN, intNN), ck(2, true), ck(0, false)),
	}
}

// longRow is row k of a table which has them in this order.
func longRow(def *tdef, k int) []Value {
	switch {
	case len(def.types) == 3:
		return vals(I(k%10), I(k), I(-(k / 10)))
	case def.key[0] == ck(0, true):
		return vals(I(-k), I(k))
	}
	return vals(I(k), I(k))
}

// fillLong makes the table with n rows, which are inserted in batches, between two other tables.
func fillLong(d *drv, def *tdef, n int) {
	below := mkdef(def.tid-1, "below", def.types, def.key...)
	above := mkdef(def.tid+1, "above", def.types, def.key...)
	d.begin()
	for _, def := range []*tdef{below, def, above} {
		d.create(def)
		for k := 0; k < n; k += 100 {
			var rows [][]Value
			for x := k; x < k+100 && x < n && (def.tid == 60 || x < 3); x++ {
				rows = append(rows, longRow(def, x))
			}
			d.insert(def.tid, rows...)
		}
	}
	d.log = nil
}

// longScans reads each number of rows, from many places, with predicates.
func longScans(r *Run) {
	n := Pick(r, 1100, 2100)
	defs := longTables()
	starts := []int{-1, 0, 1, 7, 31, 32, 63, 64, 100, 255, 256, 511, 512, 777, n - 2, n - 1, n}
	lens := append([]int{0, 1, 2, 3, 5, 8, 15, 16, 17, 99, 100, 101, 200, 300, 400, 800, 999, 1000, 1001, n - 1, n, n + 1, 2 * n}, rowCounts...)
	if r.Thorough() {
		lens = append(lens, 2047, 2048, 2049)
	}
	preds := []func(v Value) bool{
		nil,
		func(v Value) bool { return true },
		func(v Value) bool { return false },
		func(v Value) bool { return v.(I)%3 == 0 },
		func(v Value) bool { return v.(I)%64 == 63 },
		func(v Value) bool { return int(v.(I)) == n-1 },
		func(v Value) bool { return v.(I) > 256 },
	}
	r.Cases("long", Product(int64(len(defs)), int64(len(starts)), 2), func(w *Worker, i int64) {
		g := Digits(i, int64(len(defs)), int64(len(starts)), 2)
		def, start := defs[g[0]], starts[g[1]]
		d := newDrv(w)
		fillLong(d, def, n)
		if g[2] == 1 {
			d.commit()
			d.begin()
		}
		if d.dead {
			return
		}
		tbl, mt := d.table(def.tid)
		var min types.Row
		if start >= 0 {
			min = longRow(def, start)
		}
		for lx, l := range lens {
			max := longRow(def, start+l)
			if l > n {
				max = nil
			}
			for px, p := range preds {
				p := p
				var pred storage.Predicate
				var mpred func(row []Value) bool
				if p != nil {
					c := 1
					if (lx+px+int(i))%2 == 1 {
						c = int(def.key[0].Column())
					}
					pred = mkPredFn(def.types[c], c, p)
					mpred = func(row []Value) bool { return p(row[c]) }
				}
				var proj []types.ColumnNum
				if (lx+px)%3 == 2 {
					proj = cols(1, 0, 1)
				}
				want := project(mt.scan(min, max, mpred), proj)
				got, o, txt := scanTable(tbl, proj, min, max, pred)
				w.r.trans.Add(1)
				if o != oOK || !sameRows(got, want) {
					d.fail("long", "scan of key %v from %s to %s with predicate %d: got %s %s %d rows; want %d rows",
						def.key, fmtRow(min), fmtRow(max), px, o, txt, len(got), len(want))
					return
				}
			}
		}
		d.rollback()
	})
}

// longChanges updates and deletes many rows of one cursor.
func longChanges(r *Run) {
	defs := longTables()
	sizes := rowCounts
	if r.Thorough() {
		sizes = append([]int{300, 700, 1500, 2047, 2048, 2049}, sizes...)
	}
	matches := []func(k, n int) bool{
		func(k, n int) bool { return true },
		func(k, n int) bool { return k%2 == 1 },
		func(k, n int) bool { return k == n-1 },
		func(k, n int) bool { return k > 0 },
		func(k, n int) bool { return k >= 63 && k <= 65 || k >= 255 && k <= 257 },
		func(k, n int) bool { return k != n/2 },
	}
	changes := []string{"update", "update key", "delete"}
	r.Cases("long", Product(int64(len(sizes)), int64(len(defs)), int64(len(matches)), int64(len(changes)), 2, 2),
		func(w *Worker, i int64) {
			g := Digits(i, int64(len(sizes)), int64(len(defs)), int64(len(matches)), int64(len(changes)), 2, 2)
			n, def, match := sizes[g[0]], defs[g[1]], matches[g[2]]
			if !r.Thorough() && g[1] == 1 && n%2 == 0 {
				return
			}
			d := newDrv(w)
			fillLong(d, def, n)
			if g[4] == 1 {
				d.commit()
				d.begin()
			}
			if d.dead {
				return
			}
			what := fmt.Sprintf("%d rows, rows %d", n, g[2])
			matchRow := func(row []Value) bool { return match(int(row[1].(I)), n) }
			switch g[3] {
			case 0:
				d.change(def.tid, matchRow, false, cols(1), vals(I(5000)), false, what)
			case 1:
				// The key of one row, then all become this key, which is an error for the others.
				d.change(def.tid, matchRow, false, cols(0), vals(I(3)), false, what)
			case 2:
				d.change(def.tid, matchRow, true, nil, nil, false, what)
			}
			d.check()
			if d.dead {
				return
			}
			if g[5] == 1 {
				d.rollback()
			} else {
				d.commit()
			}
			d.check()
			w.r.trans.Add(int64(n))
		})
}

// longSnapshots changes the table after some of many rows have been read by a cursor.
func longSnapshots(r *Run) {
	defs := longTables()
	type place struct{ n, at int }
	var all []place
	for _, n := range rowCounts {
		for _, at := range append(positions(n), n) {
			all = append(all, place{n, at})
		}
	}
	const ops = 6
	r.Cases("long", Product(int64(len(all)), int64(len(defs)), ops), func(w *Worker, i int64) {
		g := Digits(i, int64(len(all)), int64(len(defs)), ops)
		n, at, def := all[g[0]].n, all[g[0]].at, defs[g[1]]
		if !r.Thorough() && n > 130 && (g[0]+g[1]+g[2])%3 != 0 {
			return
		}
		d := newDrv(w)
		fillLong(d, def, n)
		if i%2 == 1 {
			d.commit()
			d.begin()
		}
		if d.dead {
			return
		}
		tbl, mt := d.table(def.tid)
		want := mt.scan(nil, nil, nil)
		rows, err := tbl.Rows(ctx, nil, nil, nil, nil)
		if err != nil {
			d.fail("rows", "rows: %s", err)
			return
		}
		read := func(k int) {
			row, err := rows.Next(ctx)
			if k == len(want) {
				if row != nil || err != io.EOF {
					d.fail("snapshot", "%d rows, changed after %d: got %s %v; want the end", n, at, fmtRow(row), err)
				}
			} else if err != nil || !sameRow(row, want[k]) {
				d.fail("snapshot", "%d rows, changed after %d: row %d: got %s %v; want %s", n, at, k, fmtRow(row),
					err, fmtRow(want[k]))
			}
		}
		for k := 0; k < at && !d.dead; k++ {
			read(k)
		}
		num := func(row []Value) int { return int(row[1].(I)) }
		switch g[2] {
		case 0:
			d.change(def.tid, always, true, nil, nil, false, "all")
		case 1:
			d.change(def.tid, func(row []Value) bool { return num(row) >= at && num(row)%2 == 0 }, true, nil, nil, false, "even")
		case 2:
			d.change(def.tid, always, false, cols(1), vals(I(-1)), false, "all")
		case 3:
			var more [][]Value
			for k := 0; k < n; k += 3 {
				row := copyRow(longRow(def, k))
				row[0] = I(int(row[0].(I)) + 100000)
				more = append(more, row)
			}
			d.insert(def.tid, more...)
			d.insert(def.tid, longRow(def, n), longRow(def, n+1), longRow(def, -5))
		case 4:
			d.change(def.tid, func(row []Value) bool { return num(row) >= at }, true, nil, nil, false, "rest")
			d.insert(def.tid, longRow(def, n+7))
		case 5:
			d.drop(60 + 1)
			d.change(def.tid, func(row []Value) bool { return num(row) < at }, true, nil, nil, false, "read")
		}
		for k := at; k <= n && !d.dead; k++ {
			read(k)
		}
		if !d.dead {
			if err := rows.Close(ctx); err != nil {
				d.fail("close", "close: %s", err)
			}
		}
		w.r.trans.Add(int64(n))
		d.check()
		d.rollback()
	})
}
