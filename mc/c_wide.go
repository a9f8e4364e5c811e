// C02, C03, C08: tables with many columns.
package main

import (
	"fmt"

	"github.com/leftmike/maho/types"
)

var wideSizes = []int{9, 17, 33, 64, 65, 66, 129, 256, 257, 258, 600}

// widePositions are the columns, of n, which are of interest.
func widePositions(n int) []int {
	var ps []int
	for p := 0; p < n; p++ {
		switch p {
		case 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, n - 2, n - 1:
		default:
			if n > 66 && p > 1 {
				continue
			}
		}
		ps = append(ps, p)
	}
	return ps
}

// A wide is a table with n columns: the one at pos is an integer, and is updated or part of the key.
type wide struct {
	n, pos, key int
}

const wideKeys = 4

func wides(r *Run) []wide {
	var all []wide
	for _, n := range wideSizes {
		for _, pos := range widePositions(n) {
			for key := 0; key < wideKeys; key++ {
				if pos == 0 && key == 2 {
					continue // the column is already part of the key
				}
				all = append(all, wide{n, pos, key})
			}
		}
	}
	return all
}

func (wd wide) def() *tdef {
	var cts []types.ColumnType
	for c := 0; c < wd.n; c++ {
		ct := []types.ColumnType{intN, textN, floatN, boolN, types.ColumnType{Type: types.BytesType, Size: 10}}[c%5]
		if c == wd.pos || c == 0 {
			ct = intN
		}
		ct.NotNull = c%3 == 0
		cts = append(cts, ct)
	}
	var keys []types.ColumnKey
	switch wd.key {
	case 0:
		keys = append(keys, ck(0, false))
	case 1:
		keys = append(keys, ck(wd.pos, true))
	case 2:
		keys = append(keys, ck(wd.pos, false), ck(0, true))
	case 3:
		for c := wd.n - 1; c >= 0; c-- {
			keys = append(keys, ck(c, c%2 == 0))
		}
	}
	def := mkdef(70, "wide", cts, keys...)
	def.desc = fmt.Sprintf("%d columns, column %d, key %d", wd.n, wd.pos, wd.key)
	return def
}

// row returns row k, which is different from the others in every column but those which are BOOL.
func (wd wide) row(def *tdef, k int) []Value {
	var row []Value
	for c, ct := range def.types {
		var v Value
		switch ct.Type {
		case types.Int64Type:
			v = I(1000*c + k)
		case types.StringType:
			v = S(fmt.Sprintf("s%d.%d", c, k))
		case types.Float64Type:
			v = F(float64(c) + float64(k)/8)
		case types.BoolType:
			v = T((c+k)%2 == 0)
		default:
			v = B(fmt.Sprintf("%d.%d", c, k))
		}
		if (c+k)%7 == 6 && !ct.NotNull && c != 0 && c != wd.pos {
			v = nil
		}
		row = append(row, v)
	}
	return row
}

// wideHistories runs a history of every kind of operation on each of the tables.
func wideHistories(r *Run) {
	all := wides(r)
	r.Cases("wide", int64(len(all)), func(w *Worker, i int64) {
		wd := all[i]
		def := wd.def()
		d := newDrv(w)
		d.begin()
		d.create(def)
		d.insert(70, wd.row(def, 2))
		d.insert(70, wd.row(def, 4), wd.row(def, 0), wd.row(def, 3))
		d.check()
		d.commit()
		d.check()
		if d.dead {
			return
		}

		d.begin()
		odd := func(row []Value) bool { return row[0].(I)%2 == 1 }
		d.change(70, odd, false, cols(wd.pos), vals(I(1000*wd.pos+7)), false, "odd")
		d.check()
		d.change(70, odd, false, cols(wd.pos), vals(nil), true, "odd") // fails if not nullable
		d.check()
		last := wd.row(def, 5)
		d.change(70, eqCol(0, I(2)), false, cols(wd.n-1, wd.n/2), vals(last[wd.n-1], last[wd.n/2]), false, "last")
		d.check()
		d.insert(70, wd.row(def, 9), wd.row(def, 4)) // a duplicate
		bad := wd.row(def, 9)
		bad[wd.pos] = nil
		d.insert(70, bad)
		d.check()
		bad = wd.row(def, 11)
		d.insert(70, bad[:wd.n-1:wd.n-1])
		d.insert(70, append(wd.row(def, 12), I(1)))
		d.check()
		if d.dead {
			return
		}
		if i%2 == 0 {
			d.commit()
		} else {
			d.rollback()
		}
		d.check()

		d.begin()
		d.change(70, eqCol(0, I(4)), true, nil, nil, false, "c0 = 4")
		d.check()
		d.drop(70)
		if i%3 == 0 {
			d.commit()
		} else {
			d.rollback()
		}
		d.check()
	})
}

// wideScans checks the columns and the predicates of scans of each of the tables.
func wideScans(r *Run) {
	all := wides(r)
	r.Cases("wide", int64(len(all)), func(w *Worker, i int64) {
		wd := all[i]
		def := wd.def()
		d := newDrv(w)
		d.begin()
		d.create(def)
		for k := 0; k < 9; k++ {
			d.insert(70, wd.row(def, (k*5)%9))
		}
		if d.dead {
			return
		}
		var rev []int
		for c := wd.n - 1; c >= 0; c-- {
			rev = append(rev, c)
		}
		tbl, mt := d.table(70)
		for px, proj := range [][]int{{wd.pos}, {wd.n - 1, wd.pos, 0}, {0, wd.pos, wd.pos}, rev, nil} {
			var cs []types.ColumnNum
			if proj != nil {
				cs = cols(proj...)
			}
			for p := -1; p < wd.n; p++ {
				if p >= 0 && p != wd.pos && p != wd.pos-1 && p != wd.pos+1 && p != wd.n-1 {
					continue
				}
				for b := 0; b < 4; b++ {
					var min, max []Value
					if b&1 != 0 {
						min = wd.row(def, 2)
					}
					if b&2 != 0 {
						max = wd.row(def, 6)
					}
					want := mt.scan(min, max, nil)
					got, o, txt := scanTable(tbl, cs, min, max, nil)
					if p >= 0 {
						v := wd.row(def, 3+px)[p]
						want = mt.scan(min, max, modelPred(p, v, 1))
						got, o, txt = scanTable(tbl, cs, min, max, mkPred(def.types[p], p, v, 1))
					}
					want = project(want, cs)
					w.r.trans.Add(1)
					if o != oOK || !sameRows(got, want) {
						d.fail("wide", "%s, columns %v, predicate on column %d, bounds %d: got %s %s %s want %s",
							def.desc, proj, p, b, o, txt, fmtRows(got), fmtRows(want))
						return
					}
				}
			}
		}
		d.rollback()
	})
}
