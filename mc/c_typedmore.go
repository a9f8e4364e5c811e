// C19: structs which are not supported, and structs with many fields.
package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/types"
)

// typedRefused checks that a struct with a field or a tag which is not supported is refused.
func typedRefused(r *Run) {
	type bad struct {
		typ reflect.Type
		tag string
	}
	var bads []bad
	for _, v := range []any{uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), complex64(0), complex128(0),
		[3]byte{}, [2]int{}, map[string]int{}, make(chan int), func() {}, struct{}{}, struct{ A int }{}, (*[]byte)(nil),
		(**int)(nil), (**string)(nil), []int8(nil), []bool(nil), []int(nil), []string(nil), [][]byte(nil), []uint16(nil),
		[]*byte(nil), []any(nil), errors.New, []rune(nil), (*struct{ A int })(nil), (*map[string]int)(nil), (*uint8)(nil)} {
		bads = append(bads, bad{reflect.TypeOf(v), ""})
	}
	bads = append(bads, bad{reflect.TypeOf((*any)(nil)).Elem(), ""}, bad{reflect.TypeOf((*error)(nil)).Elem(), ""})
	for _, ft := range []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*string)(nil))} {
		for _, tag := range []string{"size=0", "size=-1", "size=x", "size=", "size", "size=1=2", "name", "primary=1", "primary=",
			"notnull=1", "null", "Primary", "primary,", ",primary", "primary,,size=1", "size =1", " size=1", "unique", "size=1.5",
			"size=4294967296", "size=4294967297", "size=8589934592", "size=9223372036854775807",
			"size=99999999999999999999", "primary name=x"} {
			bads = append(bads, bad{ft, tag})
		}
		if ft.Kind() != reflect.Slice {
			bads = append(bads, bad{ft, "notnull"}, bad{ft, "size=2,notnull"})
		}
	}
	for _, v := range []any{false, 0, int8(0), 1.5, float32(1), (*int)(nil), (*bool)(nil)} {
		bads = append(bads, bad{reflect.TypeOf(v), "notnull"}, bad{reflect.TypeOf(v), "primary,notnull"})
	}
	const npos = 4
	r.Cases("refused", int64(len(bads))*npos*2, func(w *Worker, i int64) {
		b, pos := bads[i/2/npos], int(i/2%npos)
		var flds []reflect.StructField
		for k := 0; k < npos-1; k++ {
			if k == pos {
				break
			}
			flds = append(flds, reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: reflect.TypeOf(0), Tag: `maho:"primary"`})
		}
		fld := reflect.StructField{Name: "Bad", Type: b.typ}
		if b.tag != "" {
			fld.Tag = reflect.StructTag(fmt.Sprintf("maho:%q", b.tag))
		}
		flds = append(flds, fld)
		if i%2 == 1 {
			flds = append(flds, reflect.StructField{Name: "Last", Type: reflect.TypeOf("")})
		}
		typ := reflect.StructOf(flds)
		w.r.trans.Add(1)
		w.r.State(hash64(typ.String()))
		o, txt := try(func() error {
			engine.MakeTypedInfo(600, typedName, reflect.New(typ).Interface())
			return nil
		})
		if o == oOK {
			w.Fail("refused", "%s: a typed table was made of it %s", typ, txt)
		}
	})

	notStructs := []any{0, "x", []byte(nil), []int{1}, map[string]int{}, func() {}, ptr(0), ptr("x"), ptr(ptr(tRow{})), []tRow{},
		&[]tRow{}, [1]tRow{}, true}
	r.Cases("refused/not", int64(len(notStructs)), func(w *Worker, i int64) {
		w.r.trans.Add(1)
		if o, _ := try(func() error {
			engine.MakeTypedInfo(600, typedName, notStructs[i])
			return nil
		}); o == oOK {
			w.Fail("refused", "%T: a typed table was made of it", notStructs[i])
		}
	})
}

// typedLarge checks structs with many fields.
func typedLarge(r *Run) {
	sizes := []int{7, 8, 9, 63, 64, 65, 257}
	if r.Thorough() {
		sizes = append(sizes, 5, 6, 15, 16, 17, 31, 32, 33, 127, 128, 129, 255, 256, 511, 513)
	}
	pspecs := plainSpecs()
	const nkeys = 6
	r.Cases("large", int64(len(sizes)*nkeys*len(pspecs)), func(w *Worker, i int64) {
		ds := Digits(i, int64(len(sizes)), nkeys, int64(len(pspecs)))
		n, rot := sizes[ds[0]], ds[2]
		var specs []fieldSpec
		var fnames []string
		var cols []types.Identifier
		for k := 0; k < n; k++ {
			specs = append(specs, pspecs[(k+rot)%len(pspecs)])
			fnames = append(fnames, fmt.Sprintf("Fld%d", k))
			cols = append(cols, qid(fmt.Sprintf("fld%d", k)))
		}
		keys := [nkeys][]int{{0}, {n - 1}, {n / 2}, {0, n - 1}, {1, n / 2, n - 1}, {2, 3}}[ds[1]]
		iskey := map[int]bool{}
		for _, k := range keys {
			specs[k].primary = true
			iskey[k] = true
		}
		typ := structOf(fnames, specs)
		def := typedDef(specs, cols)
		desc := func(row []Value) string {
			s := fmtRow(row)
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			return s
		}
		name := fmt.Sprintf("%d fields from %s, keys %v", n, pspecs[rot].typ, keys)

		ti := engine.MakeTypedInfo(600, typedName, reflect.New(typ).Interface())
		tt := ti.TableType()
		got := &tdef{tid: ti.TableId(), name: ti.TableName(), cols: tt.ColumnNames, types: tt.ColumnTypes, key: tt.Key}
		if !got.same(def) {
			w.Fail("large/definition", "%s: got %s; want %s", name, got.describe(), def.describe())
			return
		}
		st, _ := newStore()
		stx := st.Begin()
		if err := engine.CreateTypedTable(ctx, stx, ti); err != nil {
			w.Fail("large/create", "%s: %s", name, err)
			return
		}
		mt := &mtable{def: def}
		vals := make([][]reflect.Value, n)
		for k := range vals {
			vals[k] = fieldValues(specs[k])
		}
		fill := func(j int) reflect.Value {
			sp := reflect.New(typ)
			for k := range specs {
				sp.Elem().Field(k).Set(vals[k][(j+k/len(pspecs))%len(vals[k])])
			}
			return sp
		}
		var structs []any
		for j := 0; j < 4; j++ {
			sp := fill(j)
			row := structRow(sp.Elem(), specs)
			if _, found := mt.find(row); found {
				continue
			}
			mt.add(row)
			structs = append(structs, sp.Interface())
		}
		same := func(what string) bool {
			rows, err := rawRows(stx, def)
			w.r.trans.Add(1)
			if err == nil && sameRows(rows, mt.rows) {
				return true
			}
			var diff []string
			for j := 0; j < len(rows) && j < len(mt.rows); j++ {
				for k := range rows[j] {
					if canon(rows[j][k]) != canon(mt.rows[j][k]) && len(diff) < 5 {
						diff = append(diff, fmt.Sprintf("row %d column %d is %s; want %s", j, k, fmtValue(rows[j][k]), fmtValue(mt.rows[j][k])))
					}
				}
			}
			w.Fail("large/"+what, "%s: after %s %d rows of %d, %v, %s", name, what, len(rows), len(mt.rows), err, strings.Join(diff, ", "))
			return false
		}
		if err := engine.TypedTableInsert(ctx, stx, ti, structs...); err != nil {
			w.Fail("large/insert", "%s: %s", name, err)
			return
		}
		if !same("insert") {
			return
		}

		j := 0
		err := engine.TypedTableSelect(ctx, stx, ti, nil, nil, func(row types.Row) error {
			sp := fill(j + 2)
			if j < len(mt.rows) {
				ti.RowToStruct(row, sp.Interface())
				if back := structRow(sp.Elem(), specs); !sameRow(back, mt.rows[j]) {
					w.Fail("large/struct", "%s: %s became %s", name, desc(mt.rows[j]), desc(back))
				}
			}
			j++
			return nil
		})
		if err != nil || j != len(mt.rows) {
			w.Fail("large/select", "%s: %d rows of %d, %v", name, j, len(mt.rows), err)
		}
		for _, s := range structs {
			sv := reflect.ValueOf(s).Elem()
			want := structRow(sv, specs)
			sp := reflect.New(typ)
			for k := range iskey {
				sp.Elem().Field(k).Set(sv.Field(k))
			}
			err := engine.TypedTableLookup(ctx, stx, ti, sp.Interface())
			if back := structRow(sp.Elem(), specs); err != nil || !sameRow(back, want) {
				w.Fail("large/lookup", "%s: lookup of %s gave %s, %v", name, desc(want), desc(back), err)
			}
		}

		// Update a column, or two of them, of each row.
		for _, ks := range [][]int{{0}, {n - 1}, {n / 2}, {n - 1, 0}, {n - 2, n - 3, 1}} {
			var uns []string
			var uspecs []fieldSpec
			var ucols []types.ColumnNum
			for _, k := range ks {
				if !iskey[k] {
					uns, uspecs, ucols = append(uns, fnames[k]), append(uspecs, specs[k]), append(ucols, types.ColumnNum(k))
				}
			}
			if uns == nil {
				continue
			}
			utyp := structOf(uns, uspecs)
			j := 0
			rows := append([][]Value{}, mt.rows...)
			err := engine.TypedTableUpdate(ctx, stx, ti, nil, nil, func(row types.Row) (any, error) {
				up := reflect.New(utyp)
				for u, c := range ucols {
					up.Elem().Field(u).Set(vals[c][(j+u+1)%len(vals[c])])
				}
				if j < len(rows) && !mt.update(rows[j], ucols, structRow(up.Elem(), uspecs)) {
					w.Fail("large/model", "%s: update failed", name)
				}
				j++
				return up.Interface(), nil
			})
			if err != nil || j != len(rows) {
				w.Fail("large/update", "%s: %d rows of %d, %v", name, j, len(rows), err)
			}
			if !same(fmt.Sprintf("update %v", ks)) {
				return
			}
		}

		// Delete the row of the first struct.
		first := reflect.ValueOf(structs[0])
		for _, row := range mt.scan(structRow(first.Elem(), specs), structRow(first.Elem(), specs), nil) {
			mt.remove(row)
		}
		if err := engine.TypedTableDelete(ctx, stx, ti, first.Interface(), first.Interface(),
			func(row types.Row) (bool, error) { return true, nil }); err != nil {
			w.Fail("large/delete", "%s: %s", name, err)
		}
		same("delete")
		if err := stx.Commit(ctx); err != nil {
			w.Fail("large/commit", "%s: %s", name, err)
		}
		w.r.State(hash64(name))
	})
}

// typedMany checks tables with many rows.
func typedMany(r *Run) {
	type mrow struct {
		K int    `maho:"primary"`
		S string `maho:"size=20"`
		N *int64
	}
	type supd struct {
		S string
		N *int64
	}
	type kupd struct {
		K int
	}
	tn := typedName
	text := func(k int) string { return fmt.Sprintf("s%d", k*7) }
	type stop struct{ n, at int }
	var all []stop
	for _, n := range rowCounts {
		for _, at := range append(positions(n), n) {
			all = append(all, stop{n, at})
		}
	}
	const ops, hows = 7, 3
	r.Cases("many", Product(int64(len(all)), ops, hows), func(w *Worker, i int64) {
		g := Digits(i, int64(len(all)), ops, hows)
		n, at, how := all[g[0]].n, all[g[0]].at, g[2]
		if !r.Thorough() && n > 130 && (g[0]+g[1]+g[2])%3 != 0 {
			return
		}
		ti := engine.MakeTypedInfo(600, tn, &mrow{})
		st, _ := newStore()
		stx := st.Begin()
		must := func(what string, err error) bool {
			if err != nil {
				w.Fail("many/"+what, "%d rows, at %d, %s: %s", n, at, what, err)
			}
			return err == nil
		}
		if !must("create", engine.CreateTypedTable(ctx, stx, ti)) {
			return
		}
		want := map[int]mrow{}
		var structs []any
		for j := 0; j < n; j++ {
			k := j
			if how > 0 {
				k = n - 1 - j
			}
			v := int64(k)
			mr := mrow{K: 2 * k, S: text(k), N: &v}
			if k%5 == 4 {
				mr.N = nil
			}
			want[2*k] = mr
			structs = append(structs, &mr)
		}
		switch how {
		case 0, 1:
			if !must("insert", engine.TypedTableInsert(ctx, stx, ti, structs...)) {
				return
			}
		case 2:
			for _, s := range structs {
				if !must("insert", engine.TypedTableInsert(ctx, stx, ti, s)) {
					return
				}
			}
		}
		seen := 0
		decide := func(row types.Row) (int, bool) {
			var got mrow
			ti.RowToStruct(row, &got)
			k := 2 * seen
			if g[1] == 1 || g[1] == 5 {
				k += 2 * at
			}
			wr, found := want[k]
			if !found || wr.K != got.K || wr.S != got.S || (wr.N == nil) != (got.N == nil) || wr.N != nil && *wr.N != *got.N {
				w.Fail("many/row", "%d rows, operation %d at %d: row %d: got %s; want %v", n, g[1], at, seen, row, wr)
			}
			seen++
			return k, seen-1 == at
		}
		first, total := any(&mrow{K: 2 * at}), n
		switch g[1] {
		case 0: // Stop at a row.
			err := engine.TypedTableSelect(ctx, stx, ti, nil, nil, func(row types.Row) error {
				if _, here := decide(row); here {
					return errCallback
				}
				return nil
			})
			if (at < n) != errors.Is(err, errCallback) {
				w.Fail("many/stop", "%d rows, stopped at %d: %v", n, at, err)
			}
			if at < n {
				total = at + 1
			}
		case 1: // From a row.
			must("select", engine.TypedTableSelect(ctx, stx, ti, first, nil, func(row types.Row) error { decide(row); return nil }))
			total = n - at
		case 2: // To a row.
			must("select", engine.TypedTableSelect(ctx, stx, ti, nil, first, func(row types.Row) error { decide(row); return nil }))
			if at < n {
				total = at + 1
			}
		case 3: // Change up to a row.
			must("update", engine.TypedTableUpdate(ctx, stx, ti, nil, nil, func(row types.Row) (any, error) {
				k, _ := decide(row)
				if seen > at {
					return nil, nil
				}
				mr := want[k]
				mr.S, mr.N = "changed", nil
				want[k] = mr
				return &supd{S: "changed"}, nil
			}))
		case 4: // Change the key of a row to one later, and one earlier.
			changed := map[int]int{}
			must("update", engine.TypedTableUpdate(ctx, stx, ti, nil, nil, func(row types.Row) (any, error) {
				k, here := decide(row)
				if here {
					changed[k] = 2*n + 1
				} else if seen == at+2 {
					changed[k] = -1
				} else {
					return nil, nil
				}
				return &kupd{changed[k]}, nil
			}))
			for k, nk := range changed {
				mr := want[k]
				mr.K = nk
				want[nk] = mr
				delete(want, k)
			}
		case 5: // Delete from a row.
			must("delete", engine.TypedTableDelete(ctx, stx, ti, first, nil, func(row types.Row) (bool, error) {
				k, _ := decide(row)
				delete(want, k)
				return true, nil
			}))
			total = n - at
		case 6: // Delete all but a row.
			must("delete", engine.TypedTableDelete(ctx, stx, ti, nil, nil, func(row types.Row) (bool, error) {
				k, here := decide(row)
				if !here {
					delete(want, k)
				}
				return !here, nil
			}))
		}
		if seen != total {
			w.Fail("many/rows", "%d rows, operation %d at %d: %d rows; want %d", n, g[1], at, seen, total)
		}
		count := 0
		must("select", engine.TypedTableSelect(ctx, stx, ti, nil, nil, func(row types.Row) error {
			var got mrow
			ti.RowToStruct(row, &got)
			wr, found := want[got.K]
			if !found || wr.S != got.S || (wr.N == nil) != (got.N == nil) || wr.N != nil && *wr.N != *got.N {
				w.Fail("many/after", "%d rows, operation %d at %d: got %s", n, g[1], at, row)
			}
			count++
			return nil
		}))
		if count != len(want) {
			w.Fail("many/after", "%d rows, operation %d at %d: %d rows after it; want %d", n, g[1], at, count, len(want))
		}
		step := 1
		if n > 130 && !r.Thorough() {
			step = 13
		}
		for k := -1; k <= 2*n+1; k += step {
			mr := mrow{K: k, S: "before"}
			err := engine.TypedTableLookup(ctx, stx, ti, &mr)
			wr, found := want[k]
			if found && (err != nil || mr.S != wr.S) || !found && err != io.EOF {
				w.Fail("many/lookup", "%d rows, operation %d at %d: lookup of %d: got %s %v", n, g[1], at, k, mr.S, err)
				break
			}
		}
		must("commit", stx.Commit(ctx))
		w.r.trans.Add(int64(n))
	})
}

// typedSizes checks a text or bytes of every length up to what fits, of characters of every width, and
// longer than that.
func typedSizes(r *Run) {
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 8192}
	chars := []string{"a", "é", "漢", "𐍈", "\x00", "\xff"}
	ftypes := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf((*string)(nil)), reflect.TypeOf([]byte(nil)), reflect.TypeOf(myStr("")),
		reflect.TypeOf(myBytes(nil))}
	ns, nc, nf := int64(len(sizes)), int64(len(chars)), int64(len(ftypes))
	r.Cases("sizes", ns*nc*nf*9, func(w *Worker, i int64) {
		ds := Digits(i, ns, nc, nf, 9)
		size, char := sizes[ds[0]], chars[ds[1]]
		val := fieldSpec{typ: ftypes[ds[2]], size: size}
		n := []int{0, 1, size / 4, size / 3, size / 2, size - 1, size, size + 1, 2*size + 1}[ds[3]]
		text := strings.Repeat(char, n)
		fits := n <= size
		if val.elem().Kind() == reflect.Slice {
			fits = len(text) <= size
		}
		specs := []fieldSpec{{typ: reflect.TypeOf(0), primary: true}, val}
		typ := structOf([]string{"Key", "Val"}, specs)
		def := typedDef(specs, []types.Identifier{qid("key"), qid("val")})
		ti := engine.MakeTypedInfo(600, typedName, reflect.New(typ).Interface())
		st, _ := newStore()
		stx := st.Begin()
		defer stx.Rollback()
		if err := engine.CreateTypedTable(ctx, stx, ti); err != nil {
			w.Fail("sizes/create", "%s: %s", typ, err)
			return
		}
		row := func(key int, s string) any {
			sp := reflect.New(typ)
			sp.Elem().Field(0).SetInt(int64(key))
			var rv reflect.Value
			if val.elem().Kind() == reflect.Slice {
				rv = reflect.ValueOf([]byte(s)).Convert(val.elem())
			} else {
				rv = reflect.ValueOf(s).Convert(val.elem())
			}
			if val.typ.Kind() == reflect.Pointer {
				p := reflect.New(val.elem())
				p.Elem().Set(rv)
				rv = p
			}
			sp.Elem().Field(1).Set(rv)
			return sp.Interface()
		}
		var want [][]Value
		put := func(sp any) []Value { return structRow(reflect.ValueOf(sp).Elem(), specs) }
		same := func(what string) {
			w.r.trans.Add(1)
			if rows, err := rawRows(stx, def); err != nil || !sameRows(rows, want) {
				w.Fail("sizes/"+what, "%s: size %d, %d of %q: got %s, %v; want %s", typ, size, n, char, fmtRows(rows), err, fmtRows(want))
			}
		}
		o, txt := try(func() error { return engine.TypedTableInsert(ctx, stx, ti, row(1, text)) })
		if (o == oOK) != fits {
			w.Fail("sizes/insert", "%s: size %d, %d of %q: %s %s", typ, size, n, char, o, txt)
			return
		}
		if fits {
			want = append(want, put(row(1, text)))
		}
		same("insert")
		// An update of another row to it.
		if err := engine.TypedTableInsert(ctx, stx, ti, row(2, "")); err != nil {
			w.Fail("sizes/insert", "%s: size %d: empty: %s", typ, size, err)
			return
		}
		want = append(want, put(row(2, "")))
		utyp := structOf([]string{"Val"}, []fieldSpec{{typ: val.typ}})
		up := reflect.New(utyp)
		up.Elem().Field(0).Set(reflect.ValueOf(row(2, text)).Elem().Field(1))
		key2 := row(2, "")
		o, txt = try(func() error {
			return engine.TypedTableUpdate(ctx, stx, ti, key2, key2, func(row types.Row) (any, error) {
				return up.Interface(), nil
			})
		})
		if (o == oOK) != fits {
			w.Fail("sizes/update", "%s: size %d, %d of %q: %s %s", typ, size, n, char, o, txt)
			return
		}
		if fits {
			want[len(want)-1] = put(row(2, text))
		}
		same("update")
		if !fits {
			return
		}
		sp := row(1, "")
		err := engine.TypedTableLookup(ctx, stx, ti, sp)
		if err != nil || !sameRow(put(sp), put(row(1, text))) {
			w.Fail("sizes/lookup", "%s: size %d, %d of %q: got %s, %v", typ, size, n, char, fmtRow(put(sp)), err)
		}
	})
}
