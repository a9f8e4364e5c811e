// C06: cursors are snapshots and memory is not shared. C07: misuse is refused.
package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// mem is memory which was passed to or returned by the store, and what it must contain.
type mem struct {
	what string
	row  []Value
	want []Value
}

// snapDrv drives two cursors and writes over one table.
type snapDrv struct {
	w     *Worker
	tx    storage.Transaction
	tbl   storage.Table
	mt    *mtable
	curs  [2]*snapCur
	mems  []mem
	log   []string
	dirty bool // overwrite all memory after every step
	dead  bool
	stamp int
}

type snapCur struct {
	rows storage.Rows
	snap [][]Value
	next int
	cols []types.ColumnNum
	full [][]Value // before projection
}

func (d *snapDrv) fail(key, format string, args ...any) {
	d.dead = true
	d.w.Fail(key, "%s\nhistory (memory overwritten: %v): %s", fmt.Sprintf(format, args...), d.dirty,
		strings.Join(d.log, "; "))
}

func (d *snapDrv) lend(what string, row []Value) []Value {
	d.mems = append(d.mems, mem{what, row, copyRow(row)})
	return row
}

// after checks that no memory changed, and then overwrites it.
func (d *snapDrv) after() {
	if d.dead {
		return
	}
	for i := range d.mems {
		m := &d.mems[i]
		if !sameRow(m.row, m.want) {
			d.fail("memory", "the memory of a row %s changed: got %s want %s", m.what, fmtRow(m.row),
				fmtRow(m.want))
			return
		}
	}
	if !d.dirty {
		return
	}
	d.stamp++
	for i := range d.mems {
		m := &d.mems[i]
		for c, v := range m.row {
			if b, ok := v.(B); ok {
				for k := range b[:cap(b)] {
					b[:cap(b)][k] = byte(0x80 + d.stamp + k)
				}
			}
			if d.stamp%2 == 0 {
				m.row[c] = S(fmt.Sprintf("overwritten%d", d.stamp))
			}
		}
		m.want = copyRow(m.row)
	}
}

func (d *snapDrv) step(what string, fn func()) {
	if d.dead {
		return
	}
	d.w.r.trans.Add(1)
	d.log = append(d.log, what)
	fn()
	d.after()
	if !d.dead {
		d.contents()
	}
}

func (d *snapDrv) contents() {
	got, o, txt := scanTable(d.tbl, nil, nil, nil, nil)
	if o != oOK {
		d.fail("scan", "scan: %s %s", o, txt)
	} else if !sameRows(got, d.mt.rows) {
		d.fail("contents", "got %s want %s", fmtRows(got), fmtRows(d.mt.rows))
	}
}

func (d *snapDrv) want(what string, o outcome, txt string, want outcome) {
	if o != want {
		d.fail(what, "%s: got %s (%s) want %s", what, o, txt, want)
	}
}

func (d *snapDrv) insert(rows ...[]Value) {
	d.step("insert "+fmtRows(rows), func() {
		var in []types.Row
		for _, row := range rows {
			in = append(in, d.lend("inserted", copyRow(row)))
		}
		o, txt := try(func() error { return d.tbl.Insert(ctx, in) })
		want := oErr
		if d.mt.insert(rows) {
			want = oOK
		}
		d.want("insert", o, txt, want)
	})
}

func (d *snapDrv) open(c int, cols []types.ColumnNum, min, max []Value) {
	d.step(fmt.Sprintf("open %d cols %v min %s max %s", c, cols, fmtRow(min), fmtRow(max)), func() {
		if d.curs[c] != nil {
			d.closeCur(c)
		}
		mn, mx := copyRow(min), copyRow(max)
		if mn != nil {
			d.lend("bound", mn)
		}
		if mx != nil {
			d.lend("bound", mx)
		}
		var rows storage.Rows
		o, txt := try(func() error {
			var err error
			rows, err = d.tbl.Rows(ctx, cols, mn, mx, nil)
			return err
		})
		d.want("rows", o, txt, oOK)
		full := d.mt.scan(min, max, nil)
		d.curs[c] = &snapCur{rows: rows, snap: project(full, cols), cols: cols, full: full}
	})
}

func (d *snapDrv) closeCur(c int) {
	o, txt := try(func() error { return d.curs[c].rows.Close(ctx) })
	d.want("close", o, txt, oOK)
	d.curs[c] = nil
}

func (d *snapDrv) next(c int) {
	cur := d.curs[c]
	if cur == nil {
		return
	}
	d.step(fmt.Sprintf("next %d", c), func() {
		var row types.Row
		eof := false
		o, txt := try(func() error {
			var err error
			row, err = cur.rows.Next(ctx)
			if err == io.EOF {
				eof = true
				return nil
			}
			return err
		})
		d.want("next", o, txt, oOK)
		if d.dead {
			return
		}
		if eof != (cur.next == len(cur.snap)) {
			d.fail("snapshot", "cursor %d: row %d: eof is %v; want rows %s", c, cur.next, eof,
				fmtRows(cur.snap))
			return
		}
		if eof {
			return
		}
		if !sameRow(row, cur.snap[cur.next]) {
			d.fail("snapshot", "cursor %d: row %d: got %s want %s", c, cur.next, fmtRow(row),
				fmtRow(cur.snap[cur.next]))
			return
		}
		cur.next++
		d.lend("returned", row)
	})
}

func (d *snapDrv) drain(c int) {
	for d.curs[c] != nil && !d.dead {
		end := d.curs[c].next == len(d.curs[c].snap)
		d.next(c)
		if end {
			return
		}
	}
}

// change updates or deletes the current row of a cursor, if the row is still there.
func (d *snapDrv) change(c int, del bool, cols []types.ColumnNum, vals []Value) {
	cur := d.curs[c]
	if cur == nil || cur.next == 0 {
		return
	}
	what := fmt.Sprintf("update current %d set %v = %s", c, cols, fmtRow(vals))
	if del {
		what = fmt.Sprintf("delete current %d", c)
	}
	d.step(what, func() {
		old := cur.full[cur.next-1]
		_, there := d.mt.find(old)
		o, txt := try(func() error {
			rr, err := cur.rows.Current()
			if err != nil {
				return err
			}
			if del {
				return rr.Delete(ctx)
			}
			return rr.Update(ctx, cols, d.lend("updated", copyRow(vals)))
		})
		if !there {
			if o == oOK {
				d.fail("change-missing", "%s: succeeded but the row is not there", what)
			}
			return
		}
		want := oOK
		if del {
			d.mt.remove(old)
		} else if !d.mt.update(old, cols, vals) {
			want = oErr
		}
		d.want("change", o, txt, want)
	})
}

func newSnapDrv(w *Worker, def *tdef, rows [][]Value, dirty, later bool) *snapDrv {
	st, _ := basic.NewStore("")
	d := &snapDrv{w: w, mt: &mtable{def: def}, dirty: dirty}
	d.tx = st.Begin()
	if o, txt := try(func() error {
		return d.tx.CreateTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
	}); o != oOK {
		d.fail("create", "create: %s", txt)
		return d
	}
	d.openTable()
	d.insert(rows...)
	if later && !d.dead {
		o, txt := try(func() error { return d.tx.Commit(ctx) })
		d.want("commit", o, txt, oOK)
		d.tx = st.Begin()
		d.openTable()
	}
	return d
}

func (d *snapDrv) openTable() {
	o, txt := try(func() error {
		var err error
		def := d.mt.def
		d.tbl, err = d.tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
		return err
	})
	d.want("open-table", o, txt, oOK)
}

func checkC06(r *Run) {
	longSnapshots(r)
	bigMemory(r)
	changedAgain(r)
	def := mkdef(40, "snap", cts(bytes4NN, bytes4N), ck(0, false))
	b := func(s string) Value { return B([]byte(s)) }
	rows := [][]Value{{b("b"), b("1")}, {b("d"), b("2")}, {b("f"), nil}}

	type sop struct {
		name string
		fn   func(d *snapDrv)
	}
	ops := []sop{
		{"next0", func(d *snapDrv) { d.next(0) }},
		{"next1", func(d *snapDrv) { d.next(1) }},
		{"open0", func(d *snapDrv) { d.open(0, nil, nil, nil) }},
		{"open1", func(d *snapDrv) { d.open(1, cols(1, 0, 1), []Value{b("c"), nil}, nil) }},
		{"ins-a", func(d *snapDrv) { d.insert([]Value{b("a"), b("9")}, []Value{b("e"), b("8")}) }},
		{"ins-g", func(d *snapDrv) { d.insert([]Value{b("g"), b("7")}) }},
		{"upd-v", func(d *snapDrv) { d.change(0, false, cols(1), []Value{b("u")}) }},
		{"upd-k", func(d *snapDrv) { d.change(0, false, cols(0, 1), []Value{b("ee"), b("k")}) }},
		{"upd-1", func(d *snapDrv) { d.change(1, false, cols(1), []Value{b("w")}) }},
		{"del0", func(d *snapDrv) { d.change(0, true, nil, nil) }},
		{"del1", func(d *snapDrv) { d.change(1, true, nil, nil) }},
		{"ins-b", func(d *snapDrv) { d.insert([]Value{b("b"), b("6")}, []Value{b("h"), b("6")}) }},
	}

	for mode := 0; mode < 4; mode++ {
		depth := Pick(r, 4+mode&1, 6)
		n := Power(int64(len(ops)), depth)
		r.Cases(fmt.Sprintf("interleave/%d", mode), n, func(w *Worker, i int64) {
			d := newSnapDrv(w, def, rows, mode&1 == 1, mode&2 == 2)
			d.open(0, nil, nil, nil)
			d.open(1, cols(1), []Value{b("b"), nil}, []Value{b("d"), nil})
			d.next(0)
			for _, k := range SeqDigits(i, int64(len(ops)), depth, nil) {
				ops[k].fn(d)
				if d.dead {
					return
				}
			}
			w.r.State(hash64((mstore{40: d.mt}).canon(), curState(d.curs[0]), curState(d.curs[1])))
			d.drain(0)
			d.drain(1)
			d.contents()
			if i%4099 == 5 && len(r.samples) < 6 {
				r.Sample(strings.Join(d.log, "; "))
			}
		})
	}

	// Every type of value and kind of key: memory is isolated on every way in and out, and
	// every position of a cursor with every change.
	kdefs := []*tdef{
		mkdef(40, "k0", cts(bytes4NN, bytes4N, intN), ck(0, false)),
		mkdef(40, "k1", cts(bytes4NN, bytes4N, intN), ck(0, true), ck(2, false)),
		mkdef(40, "k2", cts(bytes4NN, bytes4N, intN), ck(2, true), ck(0, false), ck(1, true)),
		mkdef(40, "k3", cts(bytes4NN, bytes4N, intN), ck(1, false), ck(0, false)),
	}
	krows := [][]Value{{b("a"), b("x"), I(1)}, {b("b"), b("y"), I(2)}, {b("c"), b("z"), nil},
		{S("d"), S("s"), I(3)}}
	sels := [][]types.ColumnNum{nil, {0}, {1}, {2}, {1, 0}, {0, 1, 2}, {1, 1}, {2, 0}, {}}
	upds := []struct {
		cols []types.ColumnNum
		vals []Value
	}{
		{cols(0), vals(b("m"))}, {cols(1), vals(b("m"))}, {cols(2), vals(I(9))},
		{cols(1, 0), vals(b("m"), b("n"))}, {cols(0, 1, 2), vals(b("m"), nil, nil)},
		{cols(0), vals(b("a"))}, {cols(1), vals(b("toolong"))}, {cols(2, 1), vals(S("5"), S("q"))},
		{cols(1, 0), vals(b("q"), b("toolong"))}, {cols(1, 1), vals(b("p"), b("q"))},
	}
	r.Cases("positions", Product(int64(len(kdefs)), int64(len(sels)), 5, int64(len(upds)+2), 2, 2, 3),
		func(w *Worker, i int64) {
			g := Digits(i, int64(len(kdefs)), int64(len(sels)), 5, int64(len(upds)+2), 2, 2, 3)
			d := newSnapDrv(w, kdefs[g[0]], krows, g[4] == 1, g[5] == 1)
			d.open(1, nil, nil, nil)
			d.open(0, sels[g[1]], nil, nil)
			for k := 0; k < g[2]; k++ {
				d.next(0)
			}
			if g[6] == 1 {
				d.next(1)
			}
			switch k := g[3]; {
			case k == len(upds):
				d.change(0, true, nil, nil)
			case k == len(upds)+1:
				d.insert([]Value{b("aa"), b("aa"), I(2)}, []Value{b("cc"), nil, I(2)})
			default:
				d.change(0, false, upds[k].cols, upds[k].vals)
			}
			if g[6] == 2 {
				// and again by the other cursor
				d.next(1)
				d.change(1, true, nil, nil)
			}
			d.drain(0)
			d.drain(1)
			d.contents()
		})
	r.Assume("the slice of column numbers passed to open a cursor is not overwritten while the cursor is open",
		"a predicate does not overwrite the bytes it is asked about")
}

func curState(c *snapCur) string {
	if c == nil {
		return "-"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d:", c.next)
	for _, row := range c.snap {
		b.WriteString(canonRow(row))
	}
	return b.String()
}

// lifeDrv drives transactions and cursors, legally and illegally.
type lifeDrv struct {
	w         *Worker
	st        storage.Store
	def       *tdef
	log       []string
	dead      bool
	committed *mtable

	tx    storage.Transaction // the latest
	tbl   storage.Table
	open  bool
	cur   *mtable
	stale struct {
		tx  storage.Transaction
		tbl storage.Table
	}
	curs [2]*lifeCur
	ref  storage.RowRef
	rkey []Value
	rtx  storage.Transaction

	other, wasOther bool // the other table exists
}

type lifeCur struct {
	rows storage.Rows
	tx   storage.Transaction
	snap [][]Value
	next int // -1 is closed
}

func (d *lifeDrv) fail(key, format string, args ...any) {
	d.dead = true
	d.w.Fail(key, "%s\nhistory: %s", fmt.Sprintf(format, args...), strings.Join(d.log, "; "))
}

func (d *lifeDrv) do(what string, legal bool, fn func() error) bool {
	d.log = append(d.log, what)
	d.w.r.trans.Add(1)
	o, txt := try(fn)
	if legal && o != oOK {
		d.fail(what, "%s: %s %s; want ok", what, o, txt)
	} else if !legal && o == oOK {
		d.fail(what, "%s: succeeded; want it to be refused", what)
	}
	return legal && !d.dead
}

// begin must not block: there is no transaction open.
func (d *lifeDrv) begin() {
	if d.open {
		return
	}
	d.log = append(d.log, "begin")
	if d.tx != nil {
		d.stale.tx, d.stale.tbl = d.tx, d.tbl
	}
	if d.tx = beginSoon(d.st); d.tx == nil {
		d.fail("begin-blocked", "begin did not return, but there is no open transaction")
		return
	}
	d.open = true
	d.other = d.wasOther
	d.cur = d.committed.clone()
	o, txt := try(func() error {
		var err error
		d.tbl, err = d.tx.OpenTable(ctx, d.def.tid, d.def.name, d.def.cols, d.def.types, d.def.key)
		return err
	})
	if o != oOK {
		d.fail("open-table", "open table: %s %s", o, txt)
	}
}

func beginSoon(st storage.Store) storage.Transaction {
	ch := make(chan storage.Transaction, 1)
	go func() { ch <- st.Begin() }()
	select {
	case tx := <-ch:
		return tx
	case <-time.After(20 * time.Second):
		return nil
	}
}

func (d *lifeDrv) nopen() int {
	n := 0
	for _, c := range d.curs {
		if c != nil && c.next >= 0 {
			n++
		}
	}
	return n
}

func (d *lifeDrv) end(commit bool) {
	what := "rollback"
	fn := func() error { return d.tx.Rollback() }
	if commit {
		what = "commit"
		fn = func() error { return d.tx.Commit(ctx) }
	}
	if !d.do(what, d.open && d.nopen() == 0, fn) {
		return
	}
	d.open = false
	if commit {
		d.committed = d.cur
		d.wasOther = d.other
	}
}

func (d *lifeDrv) endStale(commit bool) {
	if d.stale.tx == nil {
		return
	}
	if commit {
		d.do("commit earlier transaction", false, func() error { return d.stale.tx.Commit(ctx) })
	} else {
		d.do("rollback earlier transaction", false, func() error { return d.stale.tx.Rollback() })
	}
}

func (d *lifeDrv) rows() {
	// A cursor moves down if its place is taken and it is closed.
	if d.curs[0] != nil {
		if d.curs[1] != nil && d.curs[1].next >= 0 {
			return
		}
		d.curs[1] = d.curs[0]
	}
	var rows storage.Rows
	ok := d.do("open cursor", d.open, func() error {
		var err error
		rows, err = d.tbl.Rows(ctx, nil, nil, nil, nil)
		return err
	})
	d.curs[0] = nil
	if ok {
		d.curs[0] = &lifeCur{rows: rows, tx: d.tx, snap: d.cur.scan(nil, nil, nil)}
	}
}

func (d *lifeDrv) next(c int) {
	cur := d.curs[c]
	if cur == nil {
		return
	}
	var row types.Row
	eof := false
	if !d.do(fmt.Sprintf("next %d", c), cur.next >= 0, func() error {
		var err error
		row, err = cur.rows.Next(ctx)
		if err == io.EOF {
			eof = true
			err = nil
		}
		return err
	}) {
		return
	}
	if eof {
		if cur.next < len(cur.snap) {
			d.fail("next", "eof after %d rows; want %s", cur.next, fmtRows(cur.snap))
		}
		return
	}
	if cur.next >= len(cur.snap) || !sameRow(row, cur.snap[cur.next]) {
		d.fail("next", "row %d: got %s; want %s", cur.next, fmtRow(row), fmtRows(cur.snap))
		return
	}
	cur.next++
}

func (d *lifeDrv) current(c int) {
	cur := d.curs[c]
	if cur == nil {
		return
	}
	var ref storage.RowRef
	if d.do(fmt.Sprintf("current %d", c), cur.next > 0, func() error {
		var err error
		ref, err = cur.rows.Current()
		return err
	}) {
		d.ref, d.rkey, d.rtx = ref, cur.snap[cur.next-1], cur.tx
	}
}

func (d *lifeDrv) change(del bool) {
	if d.ref == nil {
		return
	}
	there := false
	if d.open && d.rtx == d.tx {
		_, there = d.cur.find(d.rkey)
	}
	if del {
		if d.do("delete row", there, func() error { return d.ref.Delete(ctx) }) {
			d.cur.remove(d.rkey)
		}
	} else {
		v := vals(I(len(d.log)))
		if d.do("update row", there, func() error { return d.ref.Update(ctx, cols(1), copyRow(v)) }) {
			d.cur.update(d.rkey, cols(1), v)
		}
	}
}

func (d *lifeDrv) close(c int) {
	cur := d.curs[c]
	if cur == nil {
		return
	}
	if d.do(fmt.Sprintf("close %d", c), cur.next >= 0, func() error { return cur.rows.Close(ctx) }) {
		cur.next = -1
	}
}

func (d *lifeDrv) insert(stale bool) {
	row := vals(I(100+len(d.log)), I(len(d.log)))
	if stale {
		if d.stale.tbl != nil {
			d.do("insert by earlier transaction", false,
				func() error { return d.stale.tbl.Insert(ctx, []types.Row{copyRow(row)}) })
		}
		return
	}
	if d.do("insert", d.open, func() error { return d.tbl.Insert(ctx, []types.Row{copyRow(row)}) }) {
		d.cur.insert([][]Value{row})
	}
}

func (d *lifeDrv) ddl(what string) {
	def2 := mkdef(41, "other", cts(intNN), ck(0, false))
	switch what {
	case "create":
		if d.open {
			return
		}
		d.do("create table", false, func() error {
			return d.tx.CreateTable(ctx, def2.tid, def2.name, def2.cols, def2.types, def2.key)
		})
	case "drop":
		if d.open {
			return
		}
		d.do("drop table", false, func() error { return d.tx.DropTable(ctx, d.def.tid) })
	case "open":
		d.do("open table", d.open, func() error {
			_, err := d.tx.OpenTable(ctx, d.def.tid, d.def.name, d.def.cols, d.def.types, d.def.key)
			return err
		})
	}
}

// finish completes everything and looks at what was committed.
func (d *lifeDrv) finish() {
	if d.dead {
		return
	}
	for c := range d.curs {
		if d.curs[c] != nil && d.curs[c].next >= 0 {
			d.close(c)
		}
	}
	if d.open && !d.dead {
		got, o, txt := scanTable(d.tbl, nil, nil, nil, nil)
		if o != oOK {
			d.fail("scan", "scan: %s %s", o, txt)
			return
		} else if !sameRows(got, d.cur.rows) {
			d.fail("contents", "in the transaction: got %s want %s", fmtRows(got), fmtRows(d.cur.rows))
			return
		}
		d.end(true)
	}
	if d.dead {
		return
	}
	d.begin()
	if d.dead {
		return
	}
	got, o, txt := scanTable(d.tbl, nil, nil, nil, nil)
	if o != oOK {
		d.fail("scan", "scan: %s %s", o, txt)
	} else if !sameRows(got, d.committed.rows) {
		d.fail("contents", "committed: got %s want %s", fmtRows(got), fmtRows(d.committed.rows))
	}
	if o, _ := try(func() error {
		_, err := d.tx.OpenTable(ctx, 41, types.TableName{Database: id("db"), Schema: id("sc"), Table: id("other")},
			ids("c0"), cts(intNN), []types.ColumnKey{ck(0, false)})
		return err
	}); (o == oOK) != d.other {
		d.fail("contents", "the other table exists is %v; want %v", o == oOK, d.other)
	}
}

func checkC07(r *Run) {
	def := mkdef(40, "life", cts(intNN, intN), ck(0, false))
	start := func(w *Worker) *lifeDrv {
		st, _ := basic.NewStore("")
		d := &lifeDrv{w: w, st: st, def: def, committed: &mtable{def: def}}
		o, txt := try(func() error {
			tx := st.Begin()
			err := tx.CreateTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
			if err != nil {
				return err
			}
			tbl, err := tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
			if err != nil {
				return err
			}
			err = tbl.Insert(ctx, []types.Row{{I(1), I(10)}, {I(2), I(20)}})
			if err != nil {
				return err
			}
			return tx.Commit(ctx)
		})
		if o != oOK {
			d.fail("setup", "setup: %s", txt)
		}
		d.committed.insert([][]Value{vals(I(1), I(10)), vals(I(2), I(20))})
		return d
	}

	ops := []func(d *lifeDrv){
		func(d *lifeDrv) { d.end(true) },
		func(d *lifeDrv) { d.end(false) },
		func(d *lifeDrv) { d.begin() },
		func(d *lifeDrv) { d.rows() },
		func(d *lifeDrv) { d.next(0) },
		func(d *lifeDrv) { d.current(0) },
		func(d *lifeDrv) { d.change(false) },
		func(d *lifeDrv) { d.change(true) },
		func(d *lifeDrv) { d.close(0) },
		func(d *lifeDrv) { d.insert(false) },
		func(d *lifeDrv) { d.close(1) },
	}
	run := func(scope string, ops []func(d *lifeDrv), depth int, prefix ...func(d *lifeDrv)) {
		no := int64(len(ops))
		r.Cases(scope, Power(no, depth), func(w *Worker, i int64) {
			d := start(w)
			if d.dead {
				return
			}
			d.begin()
			for _, fn := range prefix {
				if !d.dead {
					fn(d)
				}
			}
			for _, k := range SeqDigits(i, no, depth, nil) {
				if d.dead {
					return
				}
				before := len(d.log)
				ops[k](d)
				if len(d.log) == before {
					return // not enabled: another case is the same without it
				}
				r.State(d.hash())
			}
			d.finish()
			if i%30011 == 17 && len(r.samples) < 8 {
				r.Sample(strings.Join(d.log, "; "))
			}
		})
	}
	run("sequences", ops, Pick(r, 5, 7))

	// With a completed transaction, cursor, and row reference at hand.
	more := append(append([]func(d *lifeDrv){}, ops...),
		func(d *lifeDrv) { d.endStale(true) },
		func(d *lifeDrv) { d.endStale(false) },
		func(d *lifeDrv) { d.insert(true) },
		func(d *lifeDrv) { d.ddl("create") },
		func(d *lifeDrv) { d.ddl("drop") },
		func(d *lifeDrv) { d.ddl("open") },
		func(d *lifeDrv) { d.next(1) },
		func(d *lifeDrv) { d.current(1) },
	)
	for c := 0; c < 2; c++ {
		run(fmt.Sprintf("completed/%d", c), more, Pick(r, 4, 5), ops[3], ops[4], ops[5], ops[7], ops[8], ops[c])
		run(fmt.Sprintf("second/%d", c), more, Pick(r, 4, 5), ops[3], ops[4], ops[5], ops[8], ops[9], ops[c],
			ops[2])
	}
	run("open", more, Pick(r, 4, 5), ops[3], ops[4], ops[3], ops[4])

	// With another table, which is created, changed, and dropped.
	var tables []func(d *lifeDrv)
	for _, what := range []string{"create", "drop", "insert", "scan", "stmt"} {
		what := what
		tables = append(tables, func(d *lifeDrv) { d.otherTable(what) })
	}
	tables = append(tables, ops[0], ops[1], ops[2], ops[3], ops[4], ops[7], ops[8])
	run("tables", tables, Pick(r, 4, 6), ops[3], ops[4])
	run("tables/dropped", tables, Pick(r, 4, 5), tables[0], ops[0], ops[2], ops[3], ops[4], ops[5], tables[1])
	r.Assume("asking for the current row after the end of a cursor is not specified")
}

func (d *lifeDrv) hash() uint64 {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %v %v %v %v %v ", d.other, d.wasOther, d.open, d.stale.tx != nil, d.ref != nil, d.rtx == d.tx)
	for _, c := range d.curs {
		if c != nil {
			fmt.Fprintf(&b, "%d/%d ", c.next, len(c.snap))
		} else {
			b.WriteString("- ")
		}
	}
	if d.cur != nil {
		b.WriteString((mstore{40: d.cur}).canon())
	}
	b.WriteString((mstore{40: d.committed}).canon())
	return hash64(b.String())
}
