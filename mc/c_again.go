// C02, C06: one row which is changed again and again, by the same or by different references to it.
package main

import (
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// changedAgain makes every sequence of changes of different columns of a row, by cursors which were
// opened before or after the other changes, and by references which were got before them.
func changedAgain(r *Run) {
	b := func(s string) Value { return B([]byte(s)) }
	defs := []*tdef{
		mkdef(41, "again", cts(bytes4NN, bytes4N, intN, str4N), ck(0, false)),
		mkdef(41, "again2", cts(intN, bytes4N, str4N, bytes4NN), ck(3, true), ck(0, false)),
	}
	rows := [][][]Value{
		{{b("b"), b("1"), I(1), S("x")}, {b("d"), nil, nil, nil}},
		{{I(1), b("1"), S("x"), b("b")}, {nil, nil, nil, b("d")}},
	}
	type change struct {
		cols []types.ColumnNum
		vals []Value
	}
	changes := [][]change{
		{
			{cols(1), vals(b("p"))}, {cols(2), vals(I(7))}, {cols(3), vals(S("q"))},
			{cols(3, 1), vals(nil, b("r"))}, {cols(2), vals(nil)},
			{cols(0, 2), vals(b("b"), I(8))}, {cols(1), vals(b("too long"))},
			{cols(0), vals(b("d"))}, {nil, nil}, {cols(0, 1), vals(b("e"), b("e"))},
		},
		{
			{cols(1), vals(b("p"))}, {cols(2), vals(S("q"))}, {cols(0), vals(I(7))},
			{cols(2, 1), vals(nil, b("r"))}, {cols(1), vals(nil)},
			{cols(3, 2), vals(b("b"), S("s"))}, {cols(2), vals(S("too long"))},
			{cols(3, 0), vals(b("d"), nil)}, {nil, nil}, {cols(3, 1), vals(b("e"), b("e"))},
		},
	}
	// Who makes the change: the cursor, another one, a reference to the row of the cursor from
	// before all changes, a cursor which is opened then; or the row is inserted again.
	const whos = 5
	nch := len(changes[0])
	depth := Pick(r, 3, 4)
	r.Cases("again", Product(int64(len(defs)), Power(int64(whos*nch), depth)), func(w *Worker, i int64) {
		g := Digits(i, int64(len(defs)), Power(int64(whos*nch), depth))
		seq := SeqDigits(int64(g[1]), int64(whos*nch), depth, nil)
		// Memory is overwritten, or not, and the rows were committed, or not.
		mode := 0
		for n, k := range seq {
			mode += k * (n + 1)
		}
		def := defs[g[0]]
		d := newSnapDrv(w, def, rows[g[0]], mode&1 == 1, mode&2 == 2)
		d.open(0, nil, nil, nil)
		d.open(1, cols(1), nil, nil)
		d.next(0)
		d.next(1)
		if d.dead {
			return
		}
		first := d.curs[0].full[0]
		var held storage.RowRef
		o, txt := try(func() error {
			var err error
			held, err = d.curs[0].rows.Current()
			return err
		})
		d.want("current", o, txt, oOK)
		for _, k := range seq {
			if d.dead {
				return
			}
			c := changes[g[0]][k%nch]
			del := c.cols == nil
			switch k / nch {
			case 0, 1:
				d.change(k/nch, del, c.cols, c.vals)
			case 2:
				d.changeBy("held", held, first, del, c.cols, c.vals)
			case 3:
				d.open(1, nil, nil, nil)
				d.next(1)
				d.change(1, del, c.cols, c.vals)
			case 4:
				row := copyRow(rows[g[0]][0])
				if del {
					row = copyRow(rows[g[0]][1])
				}
				for n, col := range c.cols {
					row[col] = c.vals[n]
				}
				d.insert(row)
			}
		}
		d.drain(0)
		d.drain(1)
		d.contents()
	})
}

// changeBy updates or deletes the row old by a reference.
func (d *snapDrv) changeBy(what string, rr storage.RowRef, old []Value, del bool, cols []types.ColumnNum,
	vals []Value) {

	what += " update " + fmtRow(vals)
	if del {
		what = "held delete"
	}
	d.step(what, func() {
		_, there := d.mt.find(old)
		o, txt := try(func() error {
			if del {
				return rr.Delete(ctx)
			}
			return rr.Update(ctx, cols, d.lend("updated", copyRow(vals)))
		})
		if !there {
			if o == oOK {
				d.fail("change-missing", "%s: succeeded but the row is not there", what)
			}
			return
		}
		want := oOK
		if del {
			d.mt.remove(old)
		} else if !d.mt.update(old, cols, vals) {
			want = oErr
		}
		d.want("change", o, txt, want)
	})
}
