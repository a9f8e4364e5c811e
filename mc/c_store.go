// C01 through C05 and C08: transactions, scans, keys, constraints, and definitions of the storage
// layer, by exhaustive enumeration of histories.
package main

import (
	"fmt"
	"math"
	"math/bits"
	"slices"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C08"] = checkC08
}

var (
	intNN    = types.ColumnType{Type: types.Int64Type, Size: 8, NotNull: true}
	intN     = types.ColumnType{Type: types.Int64Type, Size: 8}
	int4N    = types.ColumnType{Type: types.Int64Type, Size: 4}
	int2NN   = types.ColumnType{Type: types.Int64Type, Size: 2, NotNull: true}
	str4NN   = types.ColumnType{Type: types.StringType, Size: 4, NotNull: true}
	str4N    = types.ColumnType{Type: types.StringType, Size: 4}
	textN    = types.ColumnType{Type: types.StringType, Size: types.MaxColumnSize}
	bytes4N  = types.ColumnType{Type: types.BytesType, Size: 4}
	bytes4NN = types.ColumnType{Type: types.BytesType, Size: 4, NotNull: true}
	floatN   = types.ColumnType{Type: types.Float64Type, Size: 8}
	floatNN  = types.ColumnType{Type: types.Float64Type, Size: 8, NotNull: true}
	boolN    = types.ColumnType{Type: types.BoolType, Size: 1}
	boolNN   = types.ColumnType{Type: types.BoolType, Size: 1, NotNull: true}
)

func cts(c ...types.ColumnType) []types.ColumnType { return c }

func cols(c ...int) []types.ColumnNum {
	ns := []types.ColumnNum{}
	for _, n := range c {
		ns = append(ns, types.ColumnNum(n))
	}
	return ns
}

func vals(v ...Value) []Value { return v }

func always(row []Value) bool { return true }

func eqCol(c int, v Value) func(row []Value) bool {
	return func(row []Value) bool { return canon(row[c]) == canon(v) }
}

// dop is an operation of a history.
type dop struct {
	name string
	fn   func(d *drv)
	ends bool // ends the transaction
}

// txSeqs enumerates every history of depth steps: outside of a transaction, begin is the only
// step; inside, every operation is.
type txSeqs struct {
	ops    []dop
	depth  int
	counts [][2]int64 // by remaining depth: outside, inside
	start  bool       // inside a transaction at the start
}

func newTxSeqs(ops []dop, depth int, inside bool) *txSeqs {
	ts := &txSeqs{ops: ops, depth: depth, start: inside}
	ts.counts = make([][2]int64, depth+1)
	ts.counts[0] = [2]int64{1, 1}
	for k := 1; k <= depth; k++ {
		ts.counts[k][0] = ts.counts[k-1][1]
		for _, op := range ops {
			if op.ends {
				ts.counts[k][1] += ts.counts[k-1][0]
			} else {
				ts.counts[k][1] += ts.counts[k-1][1]
			}
		}
	}
	return ts
}

func (ts *txSeqs) n() int64 {
	if ts.start {
		return ts.counts[ts.depth][1]
	}
	return ts.counts[ts.depth][0]
}

func (ts *txSeqs) run(d *drv, i int64, check func()) {
	inside := ts.start
	for k := ts.depth; k > 0 && !d.dead; k-- {
		if !inside {
			d.begin()
			inside = true
			check()
			continue
		}
		for _, op := range ts.ops {
			var c int64
			if op.ends {
				c = ts.counts[k-1][0]
			} else {
				c = ts.counts[k-1][1]
			}
			if i >= c {
				i -= c
				continue
			}
			op.fn(d)
			inside = !op.ends
			break
		}
		check()
	}
}

func op(name string, fn func(d *drv)) dop { return dop{name: name, fn: fn} }

func opIns(tid storage.TableId, rows ...[]Value) dop {
	return op("ins", func(d *drv) {
		if d.cur[tid] == nil {
			return
		}
		d.insert(tid, rows...)
	})
}

func opUpd(tid storage.TableId, match func([]Value) bool, what string, c []types.ColumnNum,
	v []Value, stop bool) dop {

	return op("upd", func(d *drv) {
		if d.cur[tid] == nil {
			return
		}
		d.change(tid, match, false, c, v, stop, what)
	})
}

func opDel(tid storage.TableId, match func([]Value) bool, what string) dop {
	return op("del", func(d *drv) {
		if d.cur[tid] == nil {
			return
		}
		d.change(tid, match, true, nil, nil, false, what)
	})
}

func opCreate(def *tdef) dop { return op("create", func(d *drv) { d.create(def) }) }

func opDrop(tid storage.TableId) dop { return op("drop", func(d *drv) { d.drop(tid) }) }

func opScan(tid storage.TableId) dop {
	return op("scan", func(d *drv) {
		if d.cur[tid] == nil {
			return
		}
		d.logf("scan %d", tid)
		tbl, mt := d.table(tid)
		if d.dead {
			return
		}
		got, o, txt := scanTable(tbl, nil, nil, nil, nil)
		if d.want("scan", o, txt, oOK) && !sameRows(got, mt.rows) {
			d.fail("contents", "table %d: got %s want %s", tid, fmtRows(got), fmtRows(mt.rows))
		}
	})
}

var (
	opCommit   = dop{name: "commit", fn: func(d *drv) { d.commit() }, ends: true}
	opRollback = dop{name: "rollback", fn: func(d *drv) { d.rollback() }, ends: true}
	opNextStmt = op("next statement", func(d *drv) {
		d.logf("next statement")
		d.want("next statement", oOK, "", oOK)
		d.tx.NextStmt()
	})
)

// Two tables next to each other.
var (
	defA = mkdef(20, "ta", cts(intNN, str4N), ck(0, false))
	defB = mkdef(21, "tb", cts(intNN, str4N), ck(0, true))
	defC = mkdef(19, "tc", cts(str4NN, intN), ck(0, false))
)

// setups are the committed states from which histories start.
var setups = []func(d *drv){
	func(d *drv) {
		d.begin()
		d.create(defA)
		d.insert(20, vals(I(1), S("a")), vals(I(2), nil))
		d.commit()
	},
	func(d *drv) {
		d.begin()
		d.create(defA)
		d.create(defB)
		d.insert(20, vals(I(1), S("a")), vals(I(2), S("b")), vals(I(3), nil))
		d.insert(21, vals(I(1), S("z")), vals(I(2), nil))
		d.commit()
	},
	func(d *drv) {},
	func(d *drv) {
		d.begin()
		d.create(defA)
		d.commit()
		d.begin()
		d.create(defB)
		d.commit()
	},
}

func basicOps(r *Run) []dop {
	ops := []dop{
		opIns(20, vals(I(1), S("n"))),
		opIns(20, vals(I(4), nil), vals(I(5), S("e"))),
		opIns(20, vals(I(6), S("f")), vals(I(2), S("dup"))),
		opIns(20, vals(I(7), S("toolong"))),
		opUpd(20, always, "all", cols(1), vals(S("u")), false),
		opUpd(20, eqCol(0, I(1)), "c0 = 1", cols(0), vals(I(2)), false),
		opUpd(20, eqCol(0, I(2)), "c0 = 2", cols(0, 1), vals(I(9), S("k")), false),
		opDel(20, eqCol(0, I(1)), "c0 = 1"),
		opDel(20, always, "all"),
		opDrop(20),
		opCreate(defA),
		opIns(21, vals(I(1), S("b"))),
		opDel(21, always, "all"),
		opDrop(21),
		opCreate(defB),
		opCreate(defC),
		opNextStmt,
	}
	return ops
}

func checkC01(r *Run) {
	r.Assume("each history runs on its own store; results are compared with a reference model")
	ops := basicOps(r)
	depth := Pick(r, 3, 4)
	nops := Power(int64(len(ops)), depth)
	for _, sticky := range []bool{false, true} {
		name := fmt.Sprintf("rollback/depth%d/sticky=%v", depth, sticky)
		r.Cases(name, int64(len(setups))*nops, func(w *Worker, i int64) {
			d := newDrv(w)
			d.sticky = sticky
			setups[i/nops](d)
			d.check()
			before := d.committed.canon()
			d.begin()
			for _, k := range SeqDigits(i%nops, int64(len(ops)), depth, nil) {
				if d.dead {
					return
				}
				ops[k].fn(d)
				d.check()
			}
			if d.dead {
				return
			}
			d.rollback()
			if d.committed.canon() != before {
				panic("model: rollback changed the committed state")
			}
			d.check()
			if d.dead {
				return
			}
			// What was rolled back must not come back with the next transaction.
			d.begin()
			ops[i%int64(len(ops))].fn(d)
			d.check()
			if !d.dead {
				d.commit()
			}
			d.check()
			if i%97 == 0 && len(r.samples) < 4 {
				r.Sample(d.history("; "))
			}
		})
	}

	keyHistories(r, [][2]dop{{{}, opRollback}, {opRollback, opCommit}})
	typedHistories(r, [][2]dop{{{}, opRollback}, {opRollback, opCommit}})

	// Enough rows for a tree of several levels: every first write, then rollback.
	sizes := []int{7, 8, 15, 16, 17, 40, 130, 300}
	first := []func(d *drv, n int){
		func(d *drv, n int) { d.change(20, always, true, nil, nil, false, "all") },
		func(d *drv, n int) {
			d.change(20, always, false, cols(1), vals(S("u")), false, "all")
		},
		func(d *drv, n int) {
			d.change(20, func(row []Value) bool { return row[0].(I)%2 == 0 }, true, nil, nil, false,
				"even")
		},
		func(d *drv, n int) {
			for k := 0; k < n; k++ {
				d.insert(20, vals(I(2*k+1), S("n")))
			}
		},
		func(d *drv, n int) {
			var rows [][]Value
			for k := 0; k < n; k++ {
				rows = append(rows, vals(I(2*k+1), S("n")))
			}
			d.insert(20, append(rows, vals(I(0), nil))...)
			d.insert(20, rows...)
		},
		func(d *drv, n int) { d.drop(20) },
		func(d *drv, n int) { d.drop(21); d.create(defC); d.insert(19, vals(S("x"), I(1))) },
		func(d *drv, n int) {
			d.change(20, eqCol(0, I(0)), false, cols(0), vals(I(-1)), false, "first")
		},
		func(d *drv, n int) {
			d.change(20, eqCol(0, I(2*(n/2))), true, nil, nil, false, "middle")
		},
		func(d *drv, n int) {
			d.change(20, eqCol(0, I(2*(n-1))), false, cols(0), vals(I(-3)), false, "last")
		},
	}
	nf := int64(len(first))
	r.Cases("large", int64(len(sizes))*nf*nf, func(w *Worker, i int64) {
		g := Digits(i, int64(len(sizes)), nf, nf)
		n := sizes[g[0]]
		d := newDrv(w)
		d.begin()
		d.create(defA)
		d.create(defB)
		var rows [][]Value
		for k := 0; k < n; k++ {
			rows = append(rows, vals(I(2*k), S("o")))
		}
		d.insert(20, rows...)
		d.insert(21, vals(I(1), nil), vals(I(2), nil))
		d.commit()
		d.check()
		for _, k := range g[1:] {
			if d.dead {
				return
			}
			d.begin()
			first[k](d, n)
			d.check()
			if d.dead {
				return
			}
			d.rollback()
			d.check()
		}
	})

	// Several transactions, with commits and rollbacks mixed.
	mixed := append([]dop{opCommit, opRollback}, ops[1], ops[4], ops[6], ops[7], ops[9], ops[10],
		opNextStmt)
	ts := newTxSeqs(mixed, Pick(r, 6, 8), false)
	r.Cases("mixed", ts.n(), func(w *Worker, i int64) {
		d := newDrv(w)
		setups[0](d)
		ts.run(d, i, d.check)
		if d.tx != nil && !d.dead {
			d.rollback()
			d.check()
		}
	})
}

func checkC02(r *Run) {
	r.Assume("each history runs on its own store; results are compared with a reference model")
	ops := []dop{
		opCommit,
		opRollback,
		opIns(20, vals(I(1), S("n"))),
		opIns(20, vals(I(3), nil), vals(I(0), S("e"))),
		opUpd(20, always, "all", cols(1), vals(S("u")), false),
		opUpd(20, eqCol(0, I(1)), "c0 = 1", cols(0), vals(I(5)), false),
		opUpd(20, eqCol(0, I(2)), "c0 = 2", cols(0, 1), vals(I(1), S("k")), false),
		opDel(20, eqCol(0, I(2)), "c0 = 2"),
		opDel(20, always, "all"),
		opIns(21, vals(I(1), S("b"))),
		opNextStmt,
	}
	depth := Pick(r, 6, 7)
	for _, sticky := range []bool{false, true} {
		for s := 0; s < 2; s++ {
			ts := newTxSeqs(ops, depth, false)
			name := fmt.Sprintf("histories/depth%d/setup%d/sticky=%v", depth, s, sticky)
			r.Cases(name, ts.n(), func(w *Worker, i int64) {
				d := newDrv(w)
				d.sticky = sticky
				setups[s](d)
				ts.run(d, i, d.check)
				if d.tx != nil && !d.dead {
					d.commit()
					d.check()
				}
				if i%9973 == 0 {
					r.Sample(d.history("; "))
				}
			})
		}
	}

	keyHistories(r, [][2]dop{{{}, opCommit}, {opCommit, opCommit}})
	typedHistories(r, [][2]dop{{{}, opCommit}, {opCommit, opCommit}})
	wideHistories(r)
	dropSizes(r)
	longChanges(r)
	changedAgain(r)

	// Histories of one operation for each transaction, most committed, over a table large enough
	// for the tree to split and to merge.
	rowOps := []func(k int) dop{
		func(k int) dop { return opIns(20, vals(I(k), S("i"))) },
		func(k int) dop {
			return opUpd(20, eqCol(0, I(k)), fmt.Sprintf("c0 = %d", k), cols(1), vals(S("u")), false)
		},
		func(k int) dop { return opDel(20, eqCol(0, I(k)), fmt.Sprintf("c0 = %d", k)) },
		func(k int) dop {
			return opUpd(20, eqCol(0, I(k)), fmt.Sprintf("c0 = %d", k), cols(0), vals(I(1000-k)),
				false)
		},
	}
	// Every order of growing and shrinking: stride through the keys in several ways.
	strides := []int{1, 2, 3, 5, 7, 11, 13, 17, 19, 23}
	r.Cases("grow-and-shrink", int64(len(strides)*len(strides)*2), func(w *Worker, i int64) {
		g := Digits(i, int64(len(strides)), int64(len(strides)), 2)
		n := 101
		d := newDrv(w)
		d.begin()
		d.create(defA)
		d.commit()
		for k := 0; k < n && !d.dead; k++ {
			d.begin()
			rowOps[0]((k * strides[g[0]]) % n).fn(d)
			d.check()
			d.commit()
			if k%10 == 0 {
				d.check()
			}
		}
		for k := 0; k < n && !d.dead; k++ {
			d.begin()
			rowOps[2-g[2]+g[2]*(k%2)*2]((k * strides[g[1]]) % n).fn(d)
			if k%7 == 3 {
				d.rollback()
			} else {
				d.commit()
			}
			if k%5 == 0 {
				d.check()
			}
		}
		d.check()
	})
}

// keyTables are tables with keys of every kind: several columns, of which some may be NULL, not
// first, and in either direction.
func keyTables() []scanDef {
	return []scanDef{
		{def: mkdef(20, "k1", cts(intNN, intNN, str4N), ck(0, false), ck(1, false)), rows: [][]Value{
			vals(I(1), I(1), S("a")), vals(I(1), I(2), nil), vals(I(2), I(1), S("b")),
			vals(I(2), I(2), S("a"))}},
		{def: mkdef(20, "k2", cts(intN, str4N, boolN), ck(1, true), ck(0, false)), rows: [][]Value{
			vals(nil, nil, nil), vals(nil, S("a"), T(true)), vals(I(1), S("a"), nil),
			vals(I(1), S("ab"), T(false))}},
		{def: mkdef(20, "k3", cts(str4NN, intN, bytes4N), ck(2, false), ck(0, true)), rows: [][]Value{
			vals(S("a"), I(1), B("")), vals(S("a"), nil, B{0}), vals(S("b"), I(1), nil),
			vals(S(""), I(2), B{0, 1})}},
		{def: mkdef(20, "k4", cts(intN, floatN), ck(1, true)), rows: [][]Value{
			vals(I(1), F(0.5)), vals(I(1), F(-1)), vals(nil, nil), vals(I(2), F(inf))}},
		{def: mkdef(20, "k5", cts(boolN, boolN), ck(0, false), ck(1, true)), rows: [][]Value{
			vals(T(true), T(true)), vals(T(true), nil), vals(nil, T(false)), vals(T(false), nil)}},
		{def: mkdef(20, "k6", cts(textN), ck(0, true)), rows: [][]Value{
			vals(S("")), vals(S("a\x00")), vals(nil), vals(S("a"))}},
		{def: mkdef(20, "k7", cts(int2NN, intNN, int4N), ck(0, true), ck(2, true), ck(1, true)), rows: [][]Value{
			vals(I(-1), I(1), I(1)), vals(I(-1), I(1), nil), vals(I(3), I(1), I(1)), vals(I(-1), I(2), I(1))}},
	}
}

// keyOps are the insert and the delete of each row, and every update of a row, or of all of them,
// to any of the columns of another.
func keyOps(sd scanDef, all bool) []dop {
	var ops []dop
	nc := len(sd.def.types)
	for _, row := range sd.rows {
		match := func(mrow []Value) bool {
			return refKeyCompare(sd.def.key, mrow, row) == 0
		}
		ops = append(ops, opIns(20, row), opDel(20, match, fmtRow(row)))
		for m := 1; m < 1<<nc; m++ {
			if !all && bits.OnesCount(uint(m)) == 2 && nc > 2 {
				continue
			}
			var sel []types.ColumnNum
			for c := 0; c < nc; c++ {
				if m&(1<<c) != 0 {
					sel = append(sel, types.ColumnNum(c))
				}
			}
			var seen []string
			for _, to := range sd.rows {
				var v []Value
				for _, c := range sel {
					v = append(v, to[c])
				}
				cv := canonRow(v)
				if slices.Contains(seen, cv) {
					continue
				}
				seen = append(seen, cv)
				ops = append(ops, opUpd(20, match, fmtRow(row), sel, v, false))
			}
		}
	}
	for _, to := range sd.rows[:2] {
		ops = append(ops, opUpd(20, always, "all", cols(nc-1), to[nc-1:], false))
	}
	return append(ops, opDel(20, always, "all"))
}

// keyHistories runs every pair of operations over every set of rows of tables with every kind of
// key: in one transaction, or in two, of which the first, or the last, may be rolled back.
func keyHistories(r *Run, ends [][2]dop) {
	for _, sd := range keyTables() {
		ops := keyOps(sd, r.Thorough())
		no := int64(len(ops))
		ms := masks(len(sd.rows), Pick(r, 1, len(sd.rows)))
		ns := int64(len(ms))
		hows := int64(Pick(r, 1, 3))
		r.Cases(fmt.Sprintf("keys/%s", sd.def.name.Table), ns*no*no*int64(len(ends))*hows,
			func(w *Worker, i int64) {
				g := Digits(i, int64(len(ends)), hows, ns, no, no)
				d := newDrv(w)
				d.begin()
				d.create(sd.def)
				var rows [][]Value
				for k, row := range sd.rows {
					if ms[g[2]]&(1<<k) != 0 {
						rows = append(rows, row)
					}
				}
				d.insert(20, rows...)
				d.commit()
				d.how = g[1]
				if hows == 1 {
					d.how = int(i/int64(len(ends))) % 3
				}
				e := ends[g[0]]
				d.begin()
				ops[g[3]].fn(d)
				d.check()
				if d.dead {
					return
				}
				if e[0].fn != nil {
					e[0].fn(d)
					d.check()
					if d.dead {
						return
					}
					d.begin()
				}
				ops[g[4]].fn(d)
				d.check()
				if d.dead {
					return
				}
				e[1].fn(d)
				d.check()
			})
	}
}

// typedHistories changes a table which has columns of every type, two of bytes and of text: every change of
// one column of a row or of all rows to a value as long, shorter, and longer, and to NULL, and every pair of
// them, ended as keyHistories are.
func typedHistories(r *Run, ends [][2]dop) {
	def := mkdef(20, "tt", cts(intNN, bytes4N, textN, floatN, boolN, bytes4N, intN, str4N), ck(0, false))
	row := func(k int) []Value {
		return vals(I(k), B("ab"), S("ab"), F(1.5), T(true), B{byte(k), 0}, I(7), S("cd"))
	}
	choices := map[int][]Value{
		1: {B("xy"), B(""), B("xyz"), nil}, 2: {S("xy"), S(""), S("a longer text"), nil}, 3: {F(-1.5), F(0), F(math.NaN()), nil},
		4: {T(false), nil}, 5: {B("xy"), B(""), B{0}, nil}, 6: {I(8), I(-1), nil}, 7: {S("xy"), S(""), S("é"), nil},
	}
	matches := []struct {
		what string
		fn   func(row []Value) bool
	}{{"c0 = 1", eqCol(0, I(1))}, {"all", always}}
	var ops []dop
	for c := 1; c <= 7; c++ {
		for _, v := range choices[c] {
			for _, m := range matches {
				ops = append(ops, opUpd(20, m.fn, m.what, cols(c), vals(v), false))
			}
		}
	}
	ops = append(ops, opUpd(20, always, "all", cols(1, 5), vals(B("pq"), B("rs")), false),
		opUpd(20, always, "all", cols(2, 1, 7), vals(S("pq"), B("rs"), S("tu")), false),
		opUpd(20, eqCol(0, I(1)), "c0 = 1", cols(0), vals(I(5)), false),
		opUpd(20, eqCol(0, I(1)), "c0 = 1", cols(0, 1), vals(I(2), B("no")), false),
		opUpd(20, always, "all", cols(1), vals(B("too long")), false),
		opDel(20, eqCol(0, I(1)), "c0 = 1"), opIns(20, vals(I(3), B("ab"), nil, nil, nil, nil, nil, nil)))
	no := int64(len(ops))
	n := Pick(r, 2, 3)
	r.Cases(fmt.Sprintf("typed/%d", n), Power(no, n)*int64(len(ends)), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		d.create(def)
		d.insert(20, row(1), row(2))
		d.commit()
		d.how = int(i/int64(len(ends))) % 3
		e := ends[i%int64(len(ends))]
		d.begin()
		for k, o := range SeqDigits(i/int64(len(ends)), no, n, nil) {
			if k == n-1 && e[0].fn != nil {
				e[0].fn(d)
				d.check()
				if d.dead {
					return
				}
				d.begin()
			}
			ops[o].fn(d)
			d.check()
			if d.dead {
				return
			}
		}
		e[1].fn(d)
		d.check()
	})
}

// Predicates.
type predBool struct {
	col types.ColumnNum
	fn  func(v T) bool
}
type predString struct {
	col types.ColumnNum
	fn  func(v S) bool
}
type predBytes struct {
	col types.ColumnNum
	fn  func(v B) bool
}
type predFloat struct {
	col types.ColumnNum
	fn  func(v F) bool
}
type predInt struct {
	col types.ColumnNum
	fn  func(v I) bool
}

func (p predBool) Column() types.ColumnNum   { return p.col }
func (p predString) Column() types.ColumnNum { return p.col }
func (p predBytes) Column() types.ColumnNum  { return p.col }
func (p predFloat) Column() types.ColumnNum  { return p.col }
func (p predInt) Column() types.ColumnNum    { return p.col }

func (p predBool) BoolPred(v types.BoolValue) bool        { return p.fn(v) }
func (p predString) StringPred(v types.StringValue) bool  { return p.fn(v) }
func (p predBytes) BytesPred(v types.BytesValue) bool     { return p.fn(v) }
func (p predFloat) Float64Pred(v types.Float64Value) bool { return p.fn(v) }
func (p predInt) Int64Pred(v types.Int64Value) bool       { return p.fn(v) }

// mkPred makes a predicate on a column for every comparison with v: -1, 0, 1, or 2 for always and
// 3 for never.
func mkPred(ct types.ColumnType, col int, v Value, want int) storage.Predicate {
	fn := func(x Value) bool {
		if want == 2 {
			return true
		} else if want == 3 {
			return false
		}
		return refCompare(x, v) == want
	}
	return mkPredFn(ct, col, fn)
}

func mkPredFn(ct types.ColumnType, col int, fn func(x Value) bool) storage.Predicate {
	c := types.ColumnNum(col)
	switch ct.Type {
	case types.BoolType:
		return predBool{c, func(v T) bool { return fn(v) }}
	case types.StringType:
		return predString{c, func(v S) bool { return fn(v) }}
	case types.BytesType:
		return predBytes{c, func(v B) bool { return fn(v) }}
	case types.Float64Type:
		return predFloat{c, func(v F) bool { return fn(v) }}
	default:
		return predInt{c, func(v I) bool { return fn(v) }}
	}
}

func modelPred(col int, v Value, want int) func(row []Value) bool {
	return func(row []Value) bool {
		if row[col] == nil || want == 3 {
			return false
		}
		return want == 2 || refCompare(row[col], v) == want
	}
}

// A scanDef is a table, the rows it might have, and bounds for scans.
type scanDef struct {
	def    *tdef
	rows   [][]Value
	bounds [][]Value
}

var (
	negZero = math.Copysign(0, -1)
	nan     = math.NaN()
	inf     = math.Inf(1)
)

func scanDefs() []scanDef {
	var sds []scanDef
	add := func(def *tdef, rows [][]Value, extra ...[]Value) {
		bounds := [][]Value{nil}
		bounds = append(bounds, rows...)
		bounds = append(bounds, extra...)
		sds = append(sds, scanDef{def, rows, bounds})
	}
	for _, rev := range []bool{false, true} {
		add(mkdef(100, "si", cts(intNN, str4N, boolN), ck(0, rev)),
			[][]Value{
				vals(I(math.MinInt64), S("a"), nil), vals(I(-1), nil, T(true)),
				vals(I(0), S(""), T(false)), vals(I(1), S("b"), nil),
				vals(I(256), S("a"), T(true)), vals(I(math.MaxInt64), nil, T(false)),
			}, vals(I(-256), nil, nil), vals(I(2), S("x"), nil))
		add(mkdef(100, "ss", cts(str4N, intN), ck(0, rev)),
			[][]Value{
				vals(nil, I(1)), vals(S(""), I(2)), vals(S("\x00"), nil), vals(S("\x01"), I(4)),
				vals(S("a"), I(5)), vals(S("a\x00"), I(6)), vals(S("ab"), I(7)),
			}, vals(S("\x00\x00"), nil), vals(S("\U0010FFFF"), nil))
		add(mkdef(100, "sf", cts(floatN, bytes4N), ck(0, rev)),
			[][]Value{
				vals(nil, B("n")), vals(F(nan), nil), vals(F(-inf), B("")), vals(F(-1.5), B("a")),
				vals(F(0), B("b")), vals(F(5e-324), B("c")), vals(F(inf), B("d")),
			}, vals(F(-0.5), nil), vals(F(negZero), nil))
		add(mkdef(100, "sb", cts(bytes4N, floatN), ck(0, rev)),
			[][]Value{
				vals(nil, F(1)), vals(B(""), F(nan)), vals(B("\x00"), F(2)),
				vals(B("\x00\x01"), F(-1)), vals(B("\x01"), nil), vals(B("\xff"), F(inf)),
			}, vals(B("\x00\x00"), nil), vals(B("\xff\xff"), nil))
		add(mkdef(100, "st", cts(boolN, intN), ck(0, rev)),
			[][]Value{vals(nil, I(0)), vals(T(false), I(1)), vals(T(true), nil)})
	}
	for m := 0; m < 4; m++ {
		add(mkdef(100, "sc", cts(str4N, intN, intN), ck(0, m&1 != 0), ck(1, m&2 != 0)),
			[][]Value{
				vals(S(""), I(1), I(1)), vals(S("a"), nil, I(2)), vals(S("a"), I(1), I(3)),
				vals(S("a"), I(2), I(4)), vals(S("a\x00"), I(0), I(5)), vals(nil, I(1), nil),
			}, vals(S("a"), I(-1), nil), vals(S("b"), nil, nil))
		add(mkdef(100, "sr", cts(intN, boolN, bytes4N), ck(2, m&1 != 0), ck(0, m&2 != 0)),
			[][]Value{
				vals(I(1), T(true), B("\x00")), vals(I(2), nil, B("\x00")),
				vals(I(1), T(false), B("")), vals(nil, nil, B("\x01")), vals(I(0), nil, nil),
			}, vals(I(3), nil, B("\x00")))
	}
	return sds
}

func checkC03(r *Run) {
	r.Assume("bounds have values of the types of the columns of the key; min and max rows are compared by key only",
		"a predicate is never true of NULL")
	sds := scanDefs()

	load := func(d *drv, sd scanDef, mask int, how int) {
		below := mkdef(sd.def.tid-1, "below", sd.def.types, sd.def.key...)
		above := mkdef(sd.def.tid+1, "above", sd.def.types, sd.def.key...)
		d.begin()
		d.create(below)
		d.create(sd.def)
		d.create(above)
		d.insert(below.tid, sd.rows...)
		d.insert(above.tid, sd.rows...)
		switch how {
		case 0:
			for k := range sd.rows {
				if mask&(1<<k) != 0 {
					d.insert(sd.def.tid, sd.rows[k])
				}
			}
		case 1:
			d.insert(sd.def.tid, sd.rows...)
			d.commit()
			d.begin()
			for k := len(sd.rows) - 1; k >= 0; k-- {
				if mask&(1<<k) == 0 {
					row := sd.rows[k]
					d.change(sd.def.tid, func(mrow []Value) bool {
						return refKeyCompare(sd.def.key, mrow, row) == 0
					}, true, nil, nil, false, fmtRow(row))
				}
			}
		}
	}

	for sx, sd := range sds {
		// Every set of rows, every pair of bounds, without a predicate.
		nb := int64(len(sd.bounds))
		r.Cases(fmt.Sprintf("bounds/%s%d", sd.def.name.Table, sx), int64(subsets(len(sd.rows)))*2,
			func(w *Worker, i int64) {
				d := newDrv(w)
				load(d, sd, int(i/2), int(i%2))
				d.check()
				if d.dead {
					return
				}
				tbl, mt := d.table(sd.def.tid)
				for b := int64(0); b < nb*nb; b++ {
					min, max := sd.bounds[b/nb], sd.bounds[b%nb]
					want := mt.scan(min, max, nil)
					got, o, txt := scanTable(tbl, nil, min, max, nil)
					d.w.r.trans.Add(1)
					r.State(hash64(sd.def.name.String(), canonRow(min), canonRow(max),
						fmtRows(want)))
					if o != oOK || !sameRows(got, want) {
						d.fail("bounds", "scan of %s key %v from %s to %s: got %s %s %s want %s",
							sd.def.types, sd.def.key, fmtRow(min), fmtRow(max), o, txt, fmtRows(got),
							fmtRows(want))
						return
					}
				}
				if i == 21 {
					r.Sample(fmt.Sprintf("all %d pairs of bounds over %s", nb*nb, fmtRows(mt.rows)))
				}
				d.rollback()
			})

		// Predicates and projections, with some bounds.
		nc := len(sd.def.types)
		var projs [][]types.ColumnNum
		projs = append(projs, nil, cols())
		for a := 0; a < nc; a++ {
			projs = append(projs, cols(a))
			for b := 0; b < nc; b++ {
				projs = append(projs, cols(a, b))
			}
		}
		for c := nc - 1; c >= 0; c-- {
			projs = append(projs, cols(c, 0, c, nc-1))
		}
		type pc struct {
			col  int
			v    Value
			want int
		}
		var preds []pc
		for c := 0; c < nc; c++ {
			preds = append(preds, pc{c, nil, 2}, pc{c, nil, 3})
			for _, row := range sd.rows {
				if row[c] != nil {
					preds = append(preds, pc{c, row[c], -1}, pc{c, row[c], 0}, pc{c, row[c], 1})
				}
			}
		}
		np := int64(len(preds))
		r.Cases(fmt.Sprintf("predicates/%s%d", sd.def.name.Table, sx), np*int64(subsets(len(sd.rows))),
			func(w *Worker, i int64) {
				d := newDrv(w)
				mask := int(i / np)
				load(d, sd, mask, int(i%2))
				if d.dead {
					return
				}
				p := preds[i%np]
				tbl, mt := d.table(sd.def.tid)
				pred := mkPred(sd.def.types[p.col], p.col, p.v, p.want)
				for _, proj := range projs {
					for _, bnd := range [][2]int{{0, 0}, {2, 0}, {0, 2}, {1, 3}} {
						min, max := sd.bounds[bnd[0]], sd.bounds[bnd[1]]
						want := project(mt.scan(min, max, modelPred(p.col, p.v, p.want)), proj)
						got, o, txt := scanTable(tbl, proj, min, max, pred)
						d.w.r.trans.Add(1)
						if o != oOK || !sameRows(got, want) {
							d.fail("predicate", "scan of %v columns %v from %s to %s where column %d "+
								"compares %d with %s: got %s %s %s want %s", sd.def.types, proj,
								fmtRow(min), fmtRow(max), p.col, p.want, fmtValue(p.v), o, txt,
								fmtRows(got), fmtRows(want))
							return
						}
					}
				}
				for _, proj := range projs {
					want := project(mt.rows, proj)
					got, o, txt := scanTable(tbl, proj, nil, nil, nil)
					if o != oOK || !sameRows(got, want) {
						d.fail("projection", "columns %v: got %s %s %s want %s", proj, o, txt,
							fmtRows(got), fmtRows(want))
						return
					}
				}
				d.rollback()
			})

		// Every set of rows, every column, and every set of its values.
		for c := 0; c < nc; c++ {
			var vs []Value
			for _, row := range sd.rows {
				if row[c] != nil && !slices.ContainsFunc(vs, func(v Value) bool { return refCompare(v, row[c]) == 0 }) {
					vs = append(vs, row[c])
				}
			}
			sets := int64(1) << len(vs)
			r.Cases(fmt.Sprintf("sets/%s%d/%d", sd.def.name.Table, sx, c), sets*int64(subsets(len(sd.rows))),
				func(w *Worker, i int64) {
					d := newDrv(w)
					load(d, sd, int(i/sets), int(i%2))
					if d.dead {
						return
					}
					in := func(x Value) bool {
						for k, v := range vs {
							if refCompare(x, v) == 0 {
								return i%sets&(1<<k) != 0
							}
						}
						return false
					}
					tbl, mt := d.table(sd.def.tid)
					pred := mkPredFn(sd.def.types[c], c, in)
					for _, bnd := range [][2]int{{0, 0}, {2, 0}, {0, 2}, {1, 3}} {
						min, max := sd.bounds[bnd[0]], sd.bounds[bnd[1]]
						want := mt.scan(min, max, func(row []Value) bool { return row[c] != nil && in(row[c]) })
						got, o, txt := scanTable(tbl, nil, min, max, pred)
						d.w.r.trans.Add(1)
						if o != oOK || !sameRows(got, want) {
							d.fail("set", "scan of %v from %s to %s where column %d is one of set %b of %s: "+
								"got %s %s %s want %s", sd.def.types, fmtRow(min), fmtRow(max), c, i%sets,
								fmtRow(vs), o, txt, fmtRows(got), fmtRows(want))
							return
						}
					}
					d.rollback()
				})
		}
	}

	wideScans(r)
	longScans(r)
	bigScans(r)

	// Trees of several levels: every pair of bounds.
	sizes := []int{16, 33, 70, Pick(r, 150, 300)}
	ndefs := []*tdef{
		mkdef(100, "li", cts(intNN, intN), ck(0, false)),
		mkdef(100, "lr", cts(intNN, intN), ck(0, true)),
		mkdef(100, "ls", cts(str4NN, intN), ck(0, false)),
	}
	for _, n := range sizes {
		for dx, def := range ndefs {
			key := func(k int) Value {
				if def.types[0].Type == types.StringType {
					return S(fmt.Sprintf("%c%c", 'a'+k/26, 'a'+k%26))
				}
				return I(k)
			}
			for how := 0; how < 2; how++ {
				r.Cases(fmt.Sprintf("large%d/%d/%d", n, dx, how), int64(n), func(w *Worker, i int64) {
					d := newDrv(w)
					load(d, scanDef{def: def}, 0, 0)
					if how == 0 {
						for k := 0; k < n; k++ {
							d.insert(def.tid, vals(key(2*((k*37)%n)), I(k)))
						}
					} else {
						for k := 0; k < 2*n; k++ {
							d.insert(def.tid, vals(key(k), I(k)))
						}
						d.change(def.tid, func(row []Value) bool { return row[1].(I)%2 == 1 }, true,
							nil, nil, false, "odd")
					}
					if d.dead {
						return
					}
					tbl, mt := d.table(def.tid)
					for b := 0; b <= 2*n; b += 1 + b%3 {
						for _, in := range []int{0, 1} {
							min := vals(key(2*int(i)+in), nil)
							max := vals(key(b), nil)
							if in == 1 && b%2 == 0 {
								max = nil
							}
							want := mt.scan(min, max, nil)
							got, o, txt := scanTable(tbl, nil, min, max, nil)
							d.w.r.trans.Add(1)
							if o != oOK || !sameRows(got, want) {
								d.log = nil
								d.fail("large", "%d rows key %v from %s to %s: got %s %s %d rows want "+
									"%d rows", n, def.key, fmtRow(min), fmtRow(max), o, txt, len(got),
									len(want))
								return
							}
						}
					}
					d.rollback()
				})
			}
		}
	}
}

func checkC04(r *Run) {
	longBatches(r)
	bigKeys(r)
	badColumns(r)
	// Keys, and values which might not fit, of several types of keys.
	type keyDef struct {
		def  *tdef
		good [][]Value // rows; some have equal keys
		bad  [][]Value // rows which never fit
	}
	kds := []keyDef{
		{mkdef(50, "ki", cts(intNN, str4NN), ck(0, false)),
			[][]Value{vals(I(1), S("a")), vals(I(2), S("b")), vals(I(1), S("c")), vals(S("2"), S("d")),
				vals(F(1.5), S("e"))},
			[][]Value{vals(I(3), S("toolong")), vals(nil, S("x")), vals(S("x"), S("x")),
				vals(I(4)), vals(I(4), S("x"), I(1)), vals(I(5), nil)}},
		{mkdef(50, "kf", cts(floatN, intN), ck(0, true)),
			[][]Value{vals(F(0), I(1)), vals(F(negZero), I(2)), vals(F(nan), I(3)), vals(nil, I(4)),
				vals(F(1)), vals(I(1), nil)},
			[][]Value{vals(S("z"), I(1)), vals(T(true), I(1)), vals(F(9), S("z"))}},
		{mkdef(50, "ks", cts(bytes4N, int2NN, str4N), ck(2, false), ck(0, true)),
			[][]Value{vals(B("\x00"), I(1), S("a")), vals(B(""), I(1), S("a")),
				vals(B("\x00"), I(2), S("a\x00")), vals(nil, I(3), S("a")), vals(B(""), I(4), nil),
				vals(S("\x00"), I(5), B("a"))},
			[][]Value{vals(B(""), I(40000), S("n")), vals(B("12345"), I(1), S("n")),
				vals(B(""), nil, S("n")), vals(B("n")), vals(B("n"), I(1), B("\xff"))}},
		{mkdef(50, "kc", cts(str4N, intNN), ck(0, false), ck(1, true)),
			[][]Value{vals(S("a"), I(1)), vals(S("a"), I(2)), vals(S(""), I(1)), vals(nil, I(1)),
				vals(S("a\x01"), I(1)), vals(S("a"), S(" 1 "))},
			[][]Value{vals(S("a"), nil), vals(S("a")), vals(S("aaaaa"), I(1))}},
	}

	for kx, kd := range kds {
		all := append(append([][]Value{}, kd.good...), kd.bad...)
		na := int64(len(all))
		ng := len(kd.good)
		maxBatch := Pick(r, 3, 4)
		// Every batch of rows up to a size, over every set of rows already there, in the
		// transaction which made them or in a later one.
		for nb := 1; nb <= maxBatch; nb++ {
			ms := masks(ng, Pick(r, 1, ng))
			if nb < 3 {
				ms = masks(ng, ng)
			} else if nb == 4 {
				ms = masks(ng, 1)
			}
			pre := int64(len(ms))
			r.Cases(fmt.Sprintf("insert/%d/%d", kx, nb), pre*2*Power(na, nb), func(w *Worker, i int64) {
				g := i % Power(na, nb)
				mask := ms[i/Power(na, nb)/2]
				later := i/Power(na, nb)%2 == 1
				d := newDrv(w)
				d.begin()
				d.create(kd.def)
				for k, row := range kd.good {
					if mask&(1<<k) != 0 {
						d.insert(50, row)
					}
				}
				if later {
					d.commit()
					d.begin()
				}
				var rows [][]Value
				for _, k := range SeqDigits(g, na, nb, nil) {
					rows = append(rows, all[k])
				}
				d.insert(50, rows...)
				d.check()
				d.finish(i, 50)
				if i%9001 == 7 && len(r.samples) < 8 {
					r.Sample(d.history("; "))
				}
			})
		}

		// Every update of one row, or of all of them, to the values of any other row: every
		// choice of columns.
		nc := len(kd.def.types)
		var sels [][]types.ColumnNum
		for m := 1; m < 1<<nc; m++ {
			var sel []types.ColumnNum
			for c := 0; c < nc; c++ {
				if m&(1<<c) != 0 {
					sel = append(sel, types.ColumnNum(c))
				}
			}
			sels = append(sels, sel)
			if len(sel) > 1 {
				var rsel []types.ColumnNum
				for c := len(sel) - 1; c >= 0; c-- {
					rsel = append(rsel, sel[c])
				}
				sels = append(sels, rsel)
			}
		}
		var full [][]Value
		for _, row := range all {
			if len(row) == nc {
				full = append(full, row)
			}
		}
		nf := int64(len(full))
		ns := int64(len(sels))
		ms := masks(ng, Pick(r, 2, ng))
		r.Cases(fmt.Sprintf("update/%d", kx), int64(len(ms))*2*nf*ns*3*int64(ng+1),
			func(w *Worker, i int64) {
				g := Digits(i, int64(len(ms)), 2, nf, ns, 3, int64(ng+1))
				mask := ms[g[0]]
				d := newDrv(w)
				d.begin()
				d.create(kd.def)
				for k, row := range kd.good {
					if mask&(1<<k) != 0 {
						d.insert(50, row)
					}
				}
				if g[1] == 1 {
					d.commit()
					d.begin()
				}
				match := always
				what := "all"
				if g[5] < ng {
					row, good := refConvertRow(kd.def.types, kd.good[g[5]])
					if !good || g[4] > 0 {
						return
					}
					match = func(mrow []Value) bool {
						return refKeyCompare(kd.def.key, mrow, row) == 0
					}
					what = fmtRow(row)
				}
				var v []Value
				for _, c := range sels[g[3]] {
					v = append(v, full[g[2]][c])
				}
				// 0: continue after an error; 1: stop; 2: then insert.
				d.change(50, match, false, sels[g[3]], v, g[4] == 1, what)
				d.check()
				if g[4] == 2 && !d.dead {
					d.insert(50, full[g[2]])
					d.check()
				}
				d.finish(i, 50)
			})
	}

	// A failed statement in the middle of a transaction, then more statements: histories.
	def := mkdef(50, "kh", cts(intNN, str4N), ck(0, false))
	ops := []dop{
		opCommit,
		opRollback,
		opIns(50, vals(I(1), S("a"))),
		opIns(50, vals(I(2), S("b")), vals(I(3), S("c")), vals(I(1), S("d"))),
		opIns(50, vals(I(4), S("toolong"))),
		opIns(50, vals(I(5), nil), vals(I(5), nil)),
		opUpd(50, always, "all", cols(0), vals(I(2)), false),
		opUpd(50, eqCol(0, I(2)), "c0 = 2", cols(0), vals(I(3)), true),
		opUpd(50, eqCol(0, I(1)), "c0 = 1", cols(1, 0), vals(S("toolong"), I(6)), true),
		opUpd(50, always, "all", cols(1), vals(S("u")), true),
		opDel(50, eqCol(0, I(3)), "c0 = 3"),
	}
	ts := newTxSeqs(ops, Pick(r, 5, 6), true)
	r.Cases("histories", ts.n(), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		d.create(def)
		d.insert(50, vals(I(2), S("x")), vals(I(3), nil))
		ts.run(d, i, d.check)
		d.finish(i, 50)
	})

	// Duplicates in large tables.
	r.Cases("large", int64(Pick(r, 200, 600)), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		d.create(def)
		var rows [][]Value
		for k := int64(0); k < i; k++ {
			rows = append(rows, vals(I((k*131)%i), S("r")))
		}
		d.insert(50, rows...)
		d.check()
		for k := int64(0); k < i && !d.dead; k += 1 + i/16 {
			d.insert(50, vals(I(i+k), nil), vals(I(k), nil))
			d.change(50, eqCol(0, I(k)), false, cols(0), vals(I((k+1)%i)), true, "key")
		}
		d.check()
		d.finish(i, 50)
	})
}

// finish ends the transaction one way or the other, and checks that the key still works.
func (d *drv) finish(i int64, tid storage.TableId) {
	if d.dead {
		return
	}
	if d.tx != nil {
		if i%2 == 0 {
			d.commit()
		} else {
			d.rollback()
		}
	}
	d.check()
	if d.dead || d.committed[tid] == nil {
		return
	}
	d.begin()
	rows := d.cur[tid].rows
	for _, row := range rows {
		// Every row must be found by its key.
		if d.dead {
			return
		}
		if len(rows) < 10 {
			d.insert(tid, row)
		}
	}
	if !d.dead {
		d.check()
	}
	if !d.dead {
		d.rollback()
	}
}

// Column types and values for conversions.
func convTypes() []types.ColumnType {
	var all []types.ColumnType
	for _, nn := range []bool{false, true} {
		all = append(all,
			types.ColumnType{Type: types.BoolType, Size: 1, NotNull: nn},
			types.ColumnType{Type: types.Float64Type, Size: 8, NotNull: nn},
			types.ColumnType{Type: types.Float64Type, Size: 4, NotNull: nn},
		)
		for _, size := range []uint32{1, 2, 4, 8} {
			all = append(all, types.ColumnType{Type: types.Int64Type, Size: size, NotNull: nn})
		}
		for _, fixed := range []bool{false, true} {
			for _, size := range []uint32{0, 1, 2, 3, 128, types.MaxColumnSize} {
				all = append(all,
					types.ColumnType{Type: types.StringType, Size: size, Fixed: fixed, NotNull: nn},
					types.ColumnType{Type: types.BytesType, Size: size, Fixed: fixed, NotNull: nn})
			}
		}
	}
	return all
}

func convValues() []Value {
	vs := []Value{nil, T(false), T(true)}
	for _, i := range []int64{0, 1, -1, 9, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769,
		65535, 65536, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 53, 1<<53 + 1,
		math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1} {
		vs = append(vs, I(i))
	}
	for _, f := range []float64{0, negZero, 1, -1, 0.5, -0.5, 1.9, -1.9, 127.5, 128, -128.5, -129, 32767.9, 32768,
		-32768.9, -32769, 2147483647.5, 2147483648, -2147483648.9, -2147483649,
		9007199254740993, 9223372036854774784, 9223372036854775807, 9223372036854775808,
		-9223372036854775808, -9223372036854777856, 1e100, -1e100, inf, -inf, nan, 5e-324, 1e21, 1e20,
		0.1, 123456789.125, math.MaxFloat64} {
		vs = append(vs, F(f))
	}
	strs := []string{"", " ", "0", "1", " 1 ", "\t1\n", "-1", "+1", "01", "1.5", "-1.5e2", "1e400", "0x10",
		"1_000", "abc", "t", "true", "y", "yes", "on", "f", "false", "n", "no", "off", " true\n", "T",
		"TRUE", "tru", "yess", "127", "128", "-128", "-129", "32767", "32768", "-32768", "-32769",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807",
		"9223372036854775808", "-9223372036854775808", "-9223372036854775809", "NaN", "Inf",
		"-Infinity", "é", "éé", "ééé", "日本語", "日本語文", "\U0001F600", "a\x00b", "\xff", "\xc3", "1\v",
		"\u00a01", "x y", "e", "1e", "--1", strings.Repeat("a", 127), strings.Repeat("a", 128),
		strings.Repeat("a", 129), strings.Repeat("é", 64), strings.Repeat("é", 65),
		strings.Repeat("é", 128), strings.Repeat("é", 129), strings.Repeat("日", 128)}
	for _, s := range strs {
		vs = append(vs, S(s), B(s))
	}
	vs = append(vs, B("\x80"), B("\xed\xa0\x80"), B("\xf4\x90\x80\x80"), B("\xc0\x80"), B{0}, B{0, 1, 2})
	return vs
}

func checkC05(r *Run) {
	badColumns(r)
	bigValues(r)
	vs := convValues()
	types1 := convTypes()
	nv := int64(len(vs))

	// Every type and value, by every way to store a value.
	r.Cases("types-and-values", int64(len(types1))*nv, func(w *Worker, i int64) {
		ct := types1[i/nv]
		v := vs[i%nv]
		_, fits := refConvert(ct, v)
		r.State(hash64(fmt.Sprint(ct), canon(v), fmt.Sprint(fits)))
		good := Value(nil)
		for _, gv := range vs {
			if nv, fits := refConvert(ct, gv); fits && nv != nil {
				good = gv
				break
			}
		}
		d := newDrv(w)
		defs := []*tdef{
			mkdef(30, "c1", cts(intNN, ct, str4N), ck(0, false)),
			mkdef(31, "c2", cts(ct, intN), ck(0, false)),
			mkdef(32, "c3", cts(intNN, intN, ct), ck(0, true)),
		}
		d.begin()
		for _, def := range defs {
			d.create(def)
		}
		d.insert(30, vals(I(1), v, S("x")))
		d.insert(30, vals(I(2), good), vals(I(3), v))
		d.insert(31, vals(v))
		d.insert(31, vals(good, I(1)))
		d.insert(31, vals(v, I(1)))
		d.insert(32, vals(I(1), I(1), good))
		d.insert(32, vals(I(2)))
		d.insert(32, vals(I(3), nil))
		d.insert(32, vals(I(4), nil, v))
		d.check()
		if d.dead {
			return
		}
		for _, u := range []struct {
			tid  storage.TableId
			cols []types.ColumnNum
			vals []Value
		}{
			{30, cols(1), vals(v)},
			{30, cols(2, 1), vals(S("y"), v)},
			{30, cols(2), vals(S("ok"))},
			{31, cols(0), vals(v)},
			{31, cols(1, 0), vals(I(9), v)},
			{32, cols(2), vals(v)},
			{32, cols(0, 2), vals(I(7), v)},
			{32, cols(2, 2), vals(good, v)},
		} {
			d.change(u.tid, always, false, u.cols, u.vals, false, "all")
			d.check()
			if d.dead {
				return
			}
		}
		d.commit()
		d.check()
		if i%1009 == 5 && len(r.samples) < 6 {
			r.Sample(fmt.Sprintf("%v <- %s: fits %v", ct, fmtValue(v), fits))
		}
	})

	// Rows of every length, with values and NULLs in every position, for every choice of which
	// columns must not be NULL and which column is the key.
	r.Cases("shapes", Product(8, 3, 5, 16), func(w *Worker, i int64) {
		g := Digits(i, 8, 3, 5, 16)
		var tt []types.ColumnType
		for c := 0; c < 3; c++ {
			ct := int4N
			ct.NotNull = g[0]&(1<<c) != 0
			tt = append(tt, ct)
		}
		d := newDrv(w)
		d.begin()
		d.create(mkdef(30, "sh", tt, ck(g[1], false)))
		var row []Value
		for c := 0; c < g[2]; c++ {
			if g[3]&(1<<c) != 0 {
				row = append(row, I(10+c))
			} else {
				row = append(row, nil)
			}
		}
		d.insert(30, row)
		d.insert(30, vals(I(1), I(2), I(3)), row)
		d.insert(30, vals(I(1), I(2), I(3)))
		d.check()
		if d.dead {
			return
		}
		if len(row) <= 3 && len(row) > 0 {
			var cs []types.ColumnNum
			for c := range row {
				cs = append(cs, types.ColumnNum(c))
			}
			d.change(30, always, false, cs, row, false, "all")
			d.check()
		}
		d.finish(i, 30)
	})
}

func checkC08(r *Run) {
	// Ids of tables which are next to each other in every way.
	tids := []storage.TableId{16, 17, 255, 256, 257, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2,
		1<<32 - 1}
	mk := func(tid storage.TableId) *tdef {
		return mkdef(tid, fmt.Sprintf("t%d", tid), cts(intNN, str4N), ck(0, false))
	}

	// Histories of definitions over pairs of tables.
	pairs := [][2]storage.TableId{}
	for a := range tids {
		for b := range tids {
			if a < b && (b == a+1 || r.Thorough()) {
				pairs = append(pairs, [2]storage.TableId{tids[a], tids[b]})
			}
		}
	}
	depth := Pick(r, 5, 6)
	for px, pair := range pairs {
		if px > 0 && !r.Thorough() {
			depth = 4
		}
		d1, d2 := mk(pair[0]), mk(pair[1])
		d1b := mkdef(pair[0], "other", cts(str4NN, boolN, intN), ck(0, true), ck(2, false))
		// Same name and columns, but not the same types.
		d1c := mkdef(pair[0], fmt.Sprintf("t%d", pair[0]), cts(intNN, str4NN), ck(0, false))
		ops := []dop{
			opCommit,
			opRollback,
			opCreate(d1),
			opCreate(d2),
			opCreate(d1b),
			opCreate(d1c),
			opDrop(pair[0]),
			opDrop(pair[1]),
			op("rows", func(d *drv) {
				for tid, mt := range d.cur {
					_ = tid
					if mt.def == d1b {
						d.insert(pair[0], vals(S("a"), nil, I(int64(len(mt.rows)))))
					} else {
						d.insert(mt.def.tid, vals(I(len(mt.rows)), S("r")),
							vals(I(10+len(mt.rows)), S("s")))
					}
				}
			}),
			op("clear", func(d *drv) {
				for tid := range d.cur {
					d.change(tid, always, true, nil, nil, false, "all")
				}
			}),
		}
		ts := newTxSeqs(ops, depth, false)
		r.Cases(fmt.Sprintf("histories/%d-%d", pair[0], pair[1]), ts.n(), func(w *Worker, i int64) {
			d := newDrv(w)
			for _, def := range []*tdef{d1, d2, d1b, d1c} {
				d.addDef(def)
			}
			ts.run(d, i, d.check)
			if !d.dead && d.tx != nil {
				d.commit()
				d.check()
			}
			if i%5003 == 11 && len(r.samples) < 5 {
				r.Sample(d.history("; "))
			}
		})
	}

	// All of the tables at once: a change to one changes no other.
	r.Cases("isolation", int64(len(tids)*4), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		for _, tid := range tids {
			d.create(mk(tid))
			for k := 0; k < 20; k++ {
				d.insert(tid, vals(I(k), S("r")))
			}
		}
		d.check()
		if d.dead {
			return
		}
		if i%2 == 0 {
			d.commit()
			d.begin()
		}
		tid := tids[i/4]
		if i/2%2 == 0 {
			d.drop(tid)
			d.check()
			d.create(mk(tid))
			d.check()
		} else {
			d.change(tid, always, true, nil, nil, false, "all")
			d.check()
			d.insert(tid, vals(I(5), nil))
			d.change(tid, always, false, cols(0, 1), vals(I(6), S("u")), false, "all")
		}
		d.check()
		d.finish(i/4, tid)
	})

	// A drop of a table of any size.
	r.Cases("drop-sizes", 70, func(w *Worker, i int64) {
		n := int(i)
		if n > 40 {
			n = (n - 40) * 20
		}
		d := newDrv(w)
		d.begin()
		for _, tid := range []storage.TableId{29, 30, 31} {
			d.create(mk(tid))
			for k := 0; k < n; k++ {
				d.insert(tid, vals(I((k*7919)%1000003), nil))
			}
		}
		d.commit()
		d.check()
		if d.dead {
			return
		}
		d.begin()
		d.drop(30)
		d.check()
		d.create(mkdef(30, "again", cts(intNN), ck(0, true)))
		d.check()
		d.finish(i, 30)
	})

	// What is not a definition of a table.
	base := func() *tdef {
		td := mkdef(40, "base", cts(intNN, str4N, boolN), ck(0, false), ck(1, true))
		td.desc = "" // It will be changed.
		return td
	}
	muts := []struct {
		name string
		fn   func(td *tdef)
	}{
		{"database", func(td *tdef) { td.name.Database = id("db2") }},
		{"schema", func(td *tdef) { td.name.Schema = id("sc2") }},
		{"table", func(td *tdef) { td.name.Table = id("base2") }},
		{"no name", func(td *tdef) { td.name = types.TableName{} }},
		{"column name", func(td *tdef) { td.cols = ids("c0", "c1", "cx") }},
		{"first column name", func(td *tdef) { td.cols = ids("cx", "c1", "c2") }},
		{"swapped columns", func(td *tdef) { td.cols = ids("c1", "c0", "c2") }},
		{"fewer column names", func(td *tdef) { td.cols = ids("c0", "c1") }},
		{"more column names", func(td *tdef) { td.cols = ids("c0", "c1", "c2", "c3") }},
		{"no column names", func(td *tdef) { td.cols = nil }},
		{"type", func(td *tdef) { td.types = cts(intNN, bytes4N, boolN) }},
		{"size", func(td *tdef) { td.types[1].Size = 5 }},
		{"fixed", func(td *tdef) { td.types[1].Fixed = true }},
		{"not null", func(td *tdef) { td.types[2].NotNull = true }},
		{"null", func(td *tdef) { td.types[0].NotNull = false }},
		{"fewer types", func(td *tdef) { td.types = td.types[:2] }},
		{"no types", func(td *tdef) { td.types = nil }},
		{"key column", func(td *tdef) { td.key = []types.ColumnKey{ck(0, false), ck(2, true)} }},
		{"key direction", func(td *tdef) { td.key = []types.ColumnKey{ck(0, false), ck(1, false)} }},
		{"key order", func(td *tdef) { td.key = []types.ColumnKey{ck(1, true), ck(0, false)} }},
		{"shorter key", func(td *tdef) { td.key = td.key[:1] }},
		{"longer key", func(td *tdef) { td.key = append(td.key, ck(2, false)) }},
		{"no key", func(td *tdef) { td.key = nil }},
		{"another id", func(td *tdef) { td.tid = 41 }},
		{"an engine id", func(td *tdef) { td.tid = 16 }},
	}
	r.Cases("wrong-metadata", int64(len(muts)*2), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		d.create(base())
		d.insert(40, vals(I(1), S("a"), nil))
		if i%2 == 0 {
			d.commit()
			d.begin()
		}
		td := base()
		muts[i/2].fn(td)
		d.logf("open table with another %s", muts[i/2].name)
		_, o, _ := d.open(td)
		d.refused("open-mismatch", o)
		d.check()
		d.finish(i/2, 40)
	})

	bad := []struct {
		name string
		fn   func(td *tdef)
	}{
		{"reserved id 0", func(td *tdef) { td.tid = 0 }},
		{"reserved id 1", func(td *tdef) { td.tid = 1 }},
		{"reserved id 15", func(td *tdef) { td.tid = 15 }},
		{"fewer types", func(td *tdef) { td.types = td.types[:2] }},
		{"more types", func(td *tdef) { td.types = append(td.types, boolN) }},
		{"no types", func(td *tdef) { td.types = nil }},
		{"no key", func(td *tdef) { td.key = nil }},
		{"key out of range", func(td *tdef) { td.key = []types.ColumnKey{ck(3, false)} }},
		{"key far out of range", func(td *tdef) { td.key = []types.ColumnKey{ck(0, false), ck(9, true)} }},
		{"rowid not first", func(td *tdef) { td.cols = []types.Identifier{id("c0"), types.ROWID, id("c2")} }},
		{"rowid last", func(td *tdef) { td.cols = []types.Identifier{id("c0"), id("c1"), types.ROWID} }},
		{"rowid and a longer key", func(td *tdef) {
			td.cols = []types.Identifier{types.ROWID, id("c1"), id("c2")}
		}},
		{"rowid and another key", func(td *tdef) {
			td.cols = []types.Identifier{types.ROWID, id("c1"), id("c2")}
			td.key = []types.ColumnKey{ck(1, false)}
		}},
		{"rowid and a reverse key", func(td *tdef) {
			td.cols = []types.Identifier{types.ROWID, id("c1"), id("c2")}
			td.key = []types.ColumnKey{ck(0, true)}
		}},
		{"rowid of another type", func(td *tdef) {
			td.cols = []types.Identifier{types.ROWID, id("c1"), id("c2")}
			td.types = cts(intN, str4N, boolN)
			td.key = []types.ColumnKey{ck(0, false)}
		}},
	}
	r.Cases("bad-definitions", int64(len(bad)*2), func(w *Worker, i int64) {
		d := newDrv(w)
		d.begin()
		if i%2 == 0 {
			d.create(mk(39))
			d.insert(39, vals(I(1), nil))
		}
		td := base()
		bad[i/2].fn(td)
		d.logf("create table with %s", bad[i/2].name)
		o, _ := try(func() error {
			return d.tx.CreateTable(ctx, td.tid, td.name, td.cols, td.types, td.key)
		})
		d.refused("bad-definition", o)
		d.addDef(base())
		d.check()
		if !d.dead {
			// The id is still free.
			d.create(base())
			d.check()
		}
		d.finish(i/2, 40)
	})

	// A column named as the row id at every place but the first.
	r.Cases("rowid-places", 20*20, func(w *Worker, i int64) {
		n, at := int(i/20)+1, int(i%20)
		if at >= n {
			return
		}
		td := mkdef(40, "places", nil, ck(0, false))
		td.cols, td.types = nil, nil
		for k := 0; k < n; k++ {
			td.cols = append(td.cols, id(fmt.Sprintf("p%d", k)))
			td.types = append(td.types, types.Int64ColType)
		}
		td.cols[at] = types.ROWID
		d := newDrv(w)
		d.begin()
		d.logf("create table of %d columns, of which %d is the row id", n, at)
		o, txt := try(func() error {
			return d.tx.CreateTable(ctx, td.tid, td.name, td.cols, td.types, td.key)
		})
		if at > 0 {
			d.refused("rowid-place", o)
			d.check()
		} else if o != oOK {
			d.fail("rowid-first", "%s", txt)
		}
		if !d.dead {
			d.tx.Rollback()
		}
	})

	// A table without a key has a row id.
	r.Cases("setup-columns", 32, func(w *Worker, i int64) {
		d := newDrv(w)
		n := int(i/2) % 4
		var cn []types.Identifier
		var tt []types.ColumnType
		for c := 0; c < n; c++ {
			cn = append(cn, id(fmt.Sprintf("c%d", c)))
			tt = append(tt, str4N)
		}
		if i/8%2 == 1 {
			// Spare capacity.
			cn = append(make([]types.Identifier, 0, 10), cn...)
			tt = append(make([]types.ColumnType, 0, 10), tt...)
		}
		var key []types.ColumnKey
		if i%2 == 1 && n > 0 {
			key = []types.ColumnKey{ck(n-1, true)}
		}
		gn, gt, gk := d.st.SetupColumns(cn, tt, key)
		want := &tdef{cols: cn, types: tt, key: key}
		if key == nil {
			want.cols = append([]types.Identifier{types.ROWID}, cn...)
			want.types = append([]types.ColumnType{types.Int64ColType}, tt...)
			want.key = []types.ColumnKey{ck(0, false)}
		}
		if !want.same(&tdef{cols: gn, types: gt, key: gk}) {
			w.Fail("setup-columns", "%v %v %v: got %v %v %v", cn, tt, key, gn, gt, gk)
			return
		}
		for c := 0; c < n; c++ {
			if cn[c] != id(fmt.Sprintf("c%d", c)) || tt[c] != str4N {
				w.Fail("setup-columns-args", "changed its arguments")
				return
			}
		}
		def := &tdef{tid: 77, name: types.TableName{Table: id("noname")}, cols: gn, types: gt, key: gk}
		d.begin()
		d.create(def)
		row := vals(I(1), S("a"), S("b"), S("c"))[:len(gt)]
		if key != nil {
			row = vals(S("a"), S("b"), S("c"))[:len(gt)]
		}
		d.insert(77, row)
		d.insert(77, row)
		d.check()
		d.finish(i, 77)
	})
}

// masks returns the subsets of n with at most max elements, and all of n.
func masks(n, max int) []int {
	var ms []int
	for m := 0; m < 1<<n; m++ {
		if c := bits.OnesCount(uint(m)); c <= max || c == n {
			ms = append(ms, m)
		}
	}
	return ms
}
