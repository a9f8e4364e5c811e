// A reference model of the storage layer and a driver which runs the same operations on the real
// store and on the model, comparing everything that can be observed.
package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

var ctx = context.Background()

// refCast is the conversion of a value to a type.
func refCast(vt types.ValueType, v Value) (Value, bool) {
	if v == nil {
		return nil, true
	}
	switch vt {
	case types.BoolType:
		switch v := v.(type) {
		case T:
			return v, true
		case S:
			switch strings.Trim(string(v), " \t\n") {
			case "t", "true", "y", "yes", "on", "1":
				return T(true), true
			case "f", "false", "n", "no", "off", "0":
				return T(false), true
			}
		}
	case types.StringType:
		switch v := v.(type) {
		case S:
			return v, true
		case I:
			return S(strconv.FormatInt(int64(v), 10)), true
		case F:
			return S(strconv.FormatFloat(float64(v), 'g', -1, 64)), true
		case B:
			if utf8.Valid(v) {
				return S(string(v)), true
			}
		}
	case types.BytesType:
		switch v := v.(type) {
		case B:
			return v, true
		case S:
			return B([]byte(v)), true
		}
	case types.Float64Type:
		switch v := v.(type) {
		case F:
			return v, true
		case I:
			return F(float64(int64(v))), true
		case S:
			d, err := strconv.ParseFloat(strings.Trim(string(v), " \t\n"), 64)
			return F(d), err == nil
		}
	case types.Int64Type:
		switch v := v.(type) {
		case I:
			return v, true
		case F:
			f := math.Trunc(float64(v))
			if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
				return I(int64(f)), true
			}
		case S:
			i, err := strconv.ParseInt(strings.Trim(string(v), " \t\n"), 10, 64)
			return I(i), err == nil
		}
	}
	return nil, false
}

// refConvert is the conversion of a value to a column type; false if the value does not fit.
func refConvert(ct types.ColumnType, v Value) (Value, bool) {
	if v == nil {
		return nil, !ct.NotNull
	}
	v, good := refCast(ct.Type, v)
	if !good {
		return nil, false
	}
	switch ct.Type {
	case types.StringType:
		return v, uint64(len([]rune(string(v.(S))))) <= uint64(ct.Size)
	case types.BytesType:
		return v, uint64(len(v.(B))) <= uint64(ct.Size)
	case types.Int64Type:
		if ct.Size >= 1 && ct.Size < 8 {
			lim := int64(1) << (8*ct.Size - 1)
			i := int64(v.(I))
			return v, i >= -lim && i < lim
		}
	}
	return v, true
}

func refConvertRow(cts []types.ColumnType, row []Value) ([]Value, bool) {
	if len(row) > len(cts) {
		return nil, false
	}
	nrow := make([]Value, len(cts))
	for i, ct := range cts {
		var v Value
		if i < len(row) {
			v = row[i]
		}
		nv, good := refConvert(ct, v)
		if !good {
			return nil, false
		}
		nrow[i] = copyValue(nv)
	}
	return nrow, true
}

// tdef is the definition of a table.
type tdef struct {
	desc  string
	tid   storage.TableId
	name  types.TableName
	cols  []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
}

func (d *tdef) describe() string {
	if d.desc != "" {
		return d.desc
	}
	return fmt.Sprintf("%d %s %v %v %v:", d.tid, d.name, d.cols, d.types, d.key)
}

func mkdef(tid storage.TableId, name string, cts []types.ColumnType, key ...types.ColumnKey) *tdef {
	d := &tdef{
		tid:   tid,
		name:  types.TableName{Database: id("db"), Schema: id("sc"), Table: id(name)},
		types: cts,
		key:   key,
	}
	for i := range cts {
		d.cols = append(d.cols, id(fmt.Sprintf("c%d", i)))
	}
	d.desc = d.describe()
	return d
}

func (d *tdef) same(o *tdef) bool {
	if d.tid != o.tid || d.name != o.name || len(d.cols) != len(o.cols) ||
		len(d.types) != len(o.types) || len(d.key) != len(o.key) {
		return false
	}
	for i := range d.cols {
		if d.cols[i] != o.cols[i] {
			return false
		}
	}
	for i := range d.types {
		if d.types[i] != o.types[i] {
			return false
		}
	}
	for i := range d.key {
		if d.key[i] != o.key[i] {
			return false
		}
	}
	return true
}

type mtable struct {
	def  *tdef
	rows [][]Value // sorted by key
}

// find returns the position of the row with the same key.
func (mt *mtable) find(row []Value) (int, bool) {
	n := sort.Search(len(mt.rows), func(i int) bool {
		return refKeyCompare(mt.def.key, mt.rows[i], row) >= 0
	})
	return n, n < len(mt.rows) && refKeyCompare(mt.def.key, mt.rows[n], row) == 0
}

func (mt *mtable) add(row []Value) bool {
	n, found := mt.find(row)
	if found {
		return false
	}
	rows := append([][]Value{}, mt.rows[:n]...)
	rows = append(rows, row)
	mt.rows = append(rows, mt.rows[n:]...)
	return true
}

func (mt *mtable) remove(row []Value) bool {
	n, found := mt.find(row)
	if !found {
		return false
	}
	rows := append([][]Value{}, mt.rows[:n]...)
	mt.rows = append(rows, mt.rows[n+1:]...)
	return true
}

// insert adds all of the rows or none of them.
func (mt *mtable) insert(rows [][]Value) bool {
	save := mt.rows
	for _, row := range rows {
		nrow, good := refConvertRow(mt.def.types, row)
		if !good || !mt.add(nrow) {
			mt.rows = save
			return false
		}
	}
	return true
}

// update changes the row which has the same key as old.
func (mt *mtable) update(old []Value, cols []types.ColumnNum, vals []Value) bool {
	n, found := mt.find(old)
	if !found {
		return false
	}
	row := append([]Value{}, mt.rows[n]...)
	for i, c := range cols {
		row[c] = vals[i]
	}
	nrow, good := refConvertRow(mt.def.types, row)
	if !good {
		return false
	}
	save := mt.rows
	mt.remove(old)
	if !mt.add(nrow) {
		mt.rows = save
		return false
	}
	return true
}

func (mt *mtable) clone() *mtable {
	return &mtable{def: mt.def, rows: mt.rows[:len(mt.rows):len(mt.rows)]}
}

// scan returns the rows from min through max, inclusive, for which pred is true.
func (mt *mtable) scan(min, max []Value, pred func(row []Value) bool) [][]Value {
	var rows [][]Value
	for _, row := range mt.rows {
		if min != nil && refKeyCompare(mt.def.key, row, min) < 0 {
			continue
		}
		if max != nil && refKeyCompare(mt.def.key, row, max) > 0 {
			continue
		}
		if pred != nil && !pred(row) {
			continue
		}
		rows = append(rows, row)
	}
	return rows
}

func project(rows [][]Value, cols []types.ColumnNum) [][]Value {
	if cols == nil {
		return rows
	}
	var prows [][]Value
	for _, row := range rows {
		prow := make([]Value, len(cols))
		for i, c := range cols {
			prow[i] = row[c]
		}
		prows = append(prows, prow)
	}
	return prows
}

type mstore map[storage.TableId]*mtable

func (ms mstore) clone() mstore {
	nms := mstore{}
	for tid, mt := range ms {
		nms[tid] = mt.clone()
	}
	return nms
}

func (ms mstore) canon() string {
	var tids []int
	for tid := range ms {
		tids = append(tids, int(tid))
	}
	sort.Ints(tids)
	var b strings.Builder
	for _, tid := range tids {
		mt := ms[storage.TableId(tid)]
		b.WriteString(mt.def.describe())
		for _, row := range mt.rows {
			b.WriteString(canonRow(row))
			b.WriteByte(';')
		}
	}
	return b.String()
}

// drv runs operations on the store and on the model.
type drv struct {
	w    *Worker
	st   storage.Store
	tx   storage.Transaction
	log  []logLine
	dead bool // stopped by a failure

	committed mstore
	cur       mstore // nil if there is no transaction

	handles map[storage.TableId]storage.Table // if sticky, kept for a transaction
	sticky  bool
	how     int                         // how change reads the rows: 0 all of them; 1 only a column of them; 2 one at a time
	defs    map[storage.TableId][]*tdef // every definition used, to check for what must not exist
	kind    string                      // prefix for keys of failures
}

func newDrv(w *Worker) *drv {
	st, err := basic.NewStore("")
	if err != nil {
		panic(err)
	}
	return &drv{
		w:         w,
		st:        st,
		committed: mstore{},
		defs:      map[storage.TableId][]*tdef{},
		handles:   map[storage.TableId]storage.Table{},
	}
}

func (d *drv) logf(format string, args ...any) {
	d.log = append(d.log, logLine{format, args})
	d.w.r.trans.Add(1)
}

func (d *drv) fail(key, format string, args ...any) {
	d.dead = true
	d.w.Fail(d.kind+key, "%s\nhistory:\n  %s", fmt.Sprintf(format, args...), d.history("\n  "))
}

// logLine is only formatted if it is needed.
type logLine struct {
	format string
	args   []any
}

type (
	lrow  []Value
	lrows [][]Value
)

func (r lrow) String() string  { return fmtRow(r) }
func (r lrows) String() string { return fmtRows(r) }

func (d *drv) history(sep string) string {
	var ss []string
	for _, ll := range d.log {
		ss = append(ss, fmt.Sprintf(ll.format, ll.args...))
	}
	return strings.Join(ss, sep)
}

func (d *drv) want(what string, got outcome, txt string, want outcome) bool {
	if got != want {
		d.fail(what, "%s: got %s (%s) want %s", what, got, txt, want)
		return false
	}
	return true
}

// refused: misuse may fail or panic; what matters is that it has no effect.
func (d *drv) refused(what string, got outcome) {
	if got == oOK {
		d.fail(what, "%s: succeeded; must be refused", what)
	}
}

func (d *drv) begin() {
	d.logf("begin")
	d.tx = d.st.Begin()
	d.cur = d.committed.clone()
	d.handles = map[storage.TableId]storage.Table{}
}

func (d *drv) commit() {
	d.logf("commit")
	o, txt := try(func() error { return d.tx.Commit(ctx) })
	if d.want("commit", o, txt, oOK) {
		d.committed = d.cur
	}
	d.tx, d.cur = nil, nil
}

func (d *drv) rollback() {
	d.logf("rollback")
	o, txt := try(func() error { return d.tx.Rollback() })
	d.want("rollback", o, txt, oOK)
	d.tx, d.cur = nil, nil
}

func (d *drv) create(def *tdef) {
	d.logf("create table %d %s %v key %v", def.tid, def.name, def.types, def.key)
	d.addDef(def)
	o, txt := try(func() error {
		return d.tx.CreateTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
	})
	if _, found := d.cur[def.tid]; found {
		d.refused("create-existing", o)
	} else if d.want("create", o, txt, oOK) {
		d.cur[def.tid] = &mtable{def: def}
	}
	delete(d.handles, def.tid)
}

func (d *drv) addDef(def *tdef) {
	for _, od := range d.defs[def.tid] {
		if od == def {
			return
		}
	}
	d.defs[def.tid] = append(d.defs[def.tid], def)
}

func (d *drv) drop(tid storage.TableId) {
	d.logf("drop table %d", tid)
	o, txt := try(func() error { return d.tx.DropTable(ctx, tid) })
	if _, found := d.cur[tid]; !found {
		d.refused("drop-missing", o)
	} else if d.want("drop", o, txt, oOK) {
		delete(d.cur, tid)
	}
	delete(d.handles, tid)
}

func (d *drv) open(def *tdef) (storage.Table, outcome, string) {
	if d.sticky {
		if tbl, found := d.handles[def.tid]; found {
			return tbl, oOK, ""
		}
	}
	var tbl storage.Table
	o, txt := try(func() error {
		var err error
		tbl, err = d.tx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
		return err
	})
	if o == oOK && d.sticky {
		d.handles[def.tid] = tbl
	}
	return tbl, o, txt
}

// table opens a table known to exist.
func (d *drv) table(tid storage.TableId) (storage.Table, *mtable) {
	mt, found := d.cur[tid]
	if !found {
		panic(fmt.Sprintf("driver: no table %d", tid))
	}
	tbl, o, txt := d.open(mt.def)
	if o != oOK {
		d.fail("open", "open table %d: %s %s", tid, o, txt)
		return nil, mt
	}
	return tbl, mt
}

func (d *drv) insert(tid storage.TableId, rows ...[]Value) {
	d.logf("insert %d %s", tid, lrows(rows))
	tbl, mt := d.table(tid)
	if d.dead {
		return
	}
	var in []types.Row
	for _, row := range rows {
		in = append(in, copyRow(row))
	}
	o, txt := try(func() error { return tbl.Insert(ctx, in) })
	want := oErr
	if mt.insert(rows) {
		want = oOK
	}
	d.want("insert", o, txt, want)
	for i := range rows {
		if !sameRow(in[i], rows[i]) {
			d.fail("insert-args", "insert changed its argument: %s", fmtRow(in[i]))
		}
	}
}

// change updates or deletes, through a cursor, the rows that match; an error of one row is
// expected if the model has one and then the scan stops if stop is true.
func (d *drv) change(tid storage.TableId, match func(row []Value) bool, del bool,
	cols []types.ColumnNum, vals []Value, stop bool, what string) {

	if del {
		d.logf("delete %d where %s", tid, what)
	} else {
		d.logf("update %d set %v = %s where %s", tid, cols, lrow(vals), what)
	}
	tbl, mt := d.table(tid)
	if d.dead {
		return
	}

	snap := mt.scan(nil, nil, nil)
	if d.how == 2 {
		for _, row := range snap {
			if d.dead || (match(row) && d.changeRows(tbl, mt, nil, row, row, match, del, cols, vals, stop)) {
				return
			}
		}
		return
	}
	var proj []types.ColumnNum
	if d.how == 1 {
		proj = []types.ColumnNum{types.ColumnNum(len(mt.def.types) - 1)}
	}
	d.changeRows(tbl, mt, proj, nil, nil, match, del, cols, vals, stop)
}

func (d *drv) changeRows(tbl storage.Table, mt *mtable, proj []types.ColumnNum, min, max []Value,
	match func(row []Value) bool, del bool, cols []types.ColumnNum, vals []Value, stop bool) (stopped bool) {

	var rows storage.Rows
	o, txt := try(func() error {
		var err error
		rows, err = tbl.Rows(ctx, proj, copyRow(min), copyRow(max), nil)
		return err
	})
	if !d.want("rows", o, txt, oOK) {
		return
	}
	snap := mt.scan(min, max, nil)
	want := project(snap, proj)
	for i := 0; ; i++ {
		var row types.Row
		o, txt := try(func() error {
			var err error
			row, err = rows.Next(ctx)
			if err == io.EOF {
				row, err = nil, nil
			}
			return err
		})
		if !d.want("next", o, txt, oOK) {
			return
		}
		if row == nil {
			if i != len(snap) {
				d.fail("cursor", "cursor ended after %d rows; want %s", i, fmtRows(snap))
				return
			}
			break
		}
		if i >= len(snap) || !sameRow(row, want[i]) {
			d.fail("cursor", "cursor row %d: %s; want %s", i, fmtRow(row), fmtRows(want))
			return
		}
		if !match(snap[i]) {
			continue
		}
		rr, err := rows.Current()
		if err != nil {
			d.fail("current", "current: %s", err)
			return
		}
		_, there := mt.find(snap[i])
		if del {
			o, txt = try(func() error { return rr.Delete(ctx) })
			if !there {
				d.refused("delete-missing", o)
			} else {
				d.want("delete", o, txt, oOK)
				mt.remove(snap[i])
			}
		} else {
			in := copyRow(vals)
			o, txt = try(func() error { return rr.Update(ctx, cols, in) })
			if !there {
				d.refused("update-missing", o)
			} else {
				want := oErr
				if mt.update(snap[i], cols, vals) {
					want = oOK
				}
				d.want("update", o, txt, want)
				if want == oErr && stop {
					stopped = true
				}
			}
			if !sameRow(in, vals) {
				d.fail("update-args", "update changed its argument: %s", fmtRow(in))
			}
		}
		if d.dead {
			return
		} else if stopped {
			break
		}
	}
	o, txt = try(func() error { return rows.Close(ctx) })
	d.want("close", o, txt, oOK)
	return
}

// readAll reads all of the rows.
func readAll(rows storage.Rows) ([][]Value, error) {
	var all [][]Value
	for {
		row, err := rows.Next(ctx)
		if err == io.EOF {
			return all, nil
		} else if err != nil {
			return all, err
		}
		all = append(all, row)
		if len(all) > 1000000 {
			return all, fmt.Errorf("rows without end")
		}
	}
}

func scanTable(tbl storage.Table, cols []types.ColumnNum, min, max []Value,
	pred storage.Predicate) (got [][]Value, o outcome, txt string) {

	o, txt = try(func() error {
		rows, err := tbl.Rows(ctx, cols, copyRow(min), copyRow(max), pred)
		if err != nil {
			return err
		}
		got, err = readAll(rows)
		cerr := rows.Close(ctx)
		if err == nil {
			err = cerr
		}
		return err
	})
	return
}

func sameRows(a, b [][]Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameRow(a[i], b[i]) {
			return false
		}
	}
	return true
}

// check compares everything: the tables which exist and do not, what they are, and their rows.
func (d *drv) check() {
	if d.dead {
		return
	}
	outside := d.tx == nil
	if outside {
		d.tx = d.st.Begin()
		d.cur = d.committed.clone()
		d.handles = map[storage.TableId]storage.Table{}
	}
	d.w.r.State(hash64(d.cur.canon()))

	for tid, defs := range d.defs {
		mt, found := d.cur[tid]
		for _, def := range defs {
			if found && mt.def.same(def) {
				continue
			}
			// No such table, or it is a different table.
			if found && d.sticky {
				continue
			}
			_, o, _ := d.open(def)
			if o == oOK {
				d.fail("open-missing", "open table %d succeeded for a table which does not exist", tid)
				return
			}
		}
		if !found {
			continue
		}
		tbl, mt := d.table(tid)
		if d.dead {
			return
		}
		d.checkMeta(tbl, mt.def)
		got, o, txt := scanTable(tbl, nil, nil, nil, nil)
		if !d.want("scan", o, txt, oOK) {
			return
		}
		if !sameRows(got, mt.rows) {
			d.fail("contents", "table %d: got %s want %s", tid, fmtRows(got), fmtRows(mt.rows))
			return
		}
	}

	if outside {
		o, txt := try(func() error { return d.tx.Rollback() })
		d.want("rollback", o, txt, oOK)
		d.tx, d.cur = nil, nil
	}
}

func (d *drv) checkMeta(tbl storage.Table, def *tdef) {
	got := &tdef{tid: tbl.TID(), name: tbl.Name(), cols: tbl.ColumnNames(), types: tbl.ColumnTypes(),
		key: tbl.Key()}
	if !got.same(def) {
		d.fail("metadata", "table %d: got %v want %v", def.tid, got, def)
	}
}
