// C19: typed tables.
package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"regexp"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// A fieldSpec describes a field of a struct and the column which it should become.
type fieldSpec struct {
	typ     reflect.Type
	size    int // in the tag; 0 is none
	primary bool
	name    string // in the tag
	notNull bool   // in the tag
}

func (fs fieldSpec) elem() reflect.Type {
	if fs.typ.Kind() == reflect.Pointer {
		return fs.typ.Elem()
	}
	return fs.typ
}

func (fs fieldSpec) tag() reflect.StructTag {
	var tags []string
	if fs.primary {
		tags = append(tags, "primary")
	}
	if fs.size > 0 {
		tags = append(tags, fmt.Sprintf("size=%d", fs.size))
	}
	if fs.name != "" {
		tags = append(tags, "name="+fs.name)
	}
	if fs.notNull {
		tags = append(tags, "notnull")
	}
	if tags == nil {
		return ""
	}
	return reflect.StructTag(fmt.Sprintf(`json:"x" maho:"%s"`, strings.Join(tags, ",")))
}

func (fs fieldSpec) columnType() types.ColumnType {
	ct := types.ColumnType{NotNull: fs.typ.Kind() != reflect.Pointer}
	switch fs.elem().Kind() {
	case reflect.Bool:
		ct.Type, ct.Size = types.BoolType, 1
	case reflect.Int8:
		ct.Type, ct.Size = types.Int64Type, 1
	case reflect.Int16:
		ct.Type, ct.Size = types.Int64Type, 2
	case reflect.Int32:
		ct.Type, ct.Size = types.Int64Type, 4
	case reflect.Int64, reflect.Int:
		ct.Type, ct.Size = types.Int64Type, 8
	case reflect.Float32, reflect.Float64:
		ct.Type, ct.Size = types.Float64Type, 8
	case reflect.String, reflect.Slice:
		ct.Type, ct.Size = types.StringType, 1
		if fs.elem().Kind() == reflect.Slice {
			ct.Type, ct.NotNull = types.BytesType, fs.notNull
		}
		if fs.size > 0 {
			ct.Size = uint32(fs.size)
		}
	}
	return ct
}

func structOf(names []string, specs []fieldSpec) reflect.Type {
	var flds []reflect.StructField
	for i, fs := range specs {
		flds = append(flds, reflect.StructField{Name: names[i], Type: fs.typ, Tag: fs.tag()})
	}
	return reflect.StructOf(flds)
}

type (
	myInt   int32
	myStr   string
	myBytes []byte
)

var fieldTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myStr("")),
	reflect.TypeOf(myBytes(nil)),
}

// plainSpecs is a field of each type, and a pointer to each (or the same with not null).
func plainSpecs() []fieldSpec {
	var specs []fieldSpec
	for _, ft := range fieldTypes {
		fs := fieldSpec{typ: ft}
		if k := ft.Kind(); k == reflect.Slice || k == reflect.String {
			fs.size = 3
		}
		specs = append(specs, fs)
		if ft.Kind() == reflect.Slice {
			fs.notNull = true
		} else {
			fs.typ = reflect.PointerTo(ft)
		}
		specs = append(specs, fs)
	}
	return specs
}

func tagSpecs() []fieldSpec {
	var specs []fieldSpec
	for _, fs := range plainSpecs() {
		fs.size = 0
		sizes := []int{0}
		switch fs.elem().Kind() {
		case reflect.String, reflect.Slice:
			sizes = []int{0, 1, 300, math.MaxInt32}
		case reflect.Int16, reflect.Float32:
			sizes = []int{0, 7} // The size is the size of the type.
		}
		for _, fs.size = range sizes {
			for _, fs.primary = range []bool{false, true} {
				for _, fs.name = range []string{"", "TeXt"} {
					specs = append(specs, fs)
				}
			}
		}
	}
	return specs
}

var boundary = regexp.MustCompile(`([^A-Z])([A-Z])`)

func snake(s string) string {
	return strings.ToLower(boundary.ReplaceAllString(s, "${1}_${2}"))
}

// fieldValues is values of the type of the field.
func fieldValues(fs fieldSpec) []reflect.Value {
	var vals []any
	switch fs.elem().Kind() {
	case reflect.Bool:
		vals = []any{false, true}
	case reflect.Int8:
		vals = []any{0, -1, math.MaxInt8, math.MinInt8}
	case reflect.Int16:
		vals = []any{0, 1, math.MaxInt16, math.MinInt16}
	case reflect.Int32:
		vals = []any{0, -1, math.MaxInt32, math.MinInt32}
	case reflect.Int64, reflect.Int:
		vals = []any{0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1}
	case reflect.Float32:
		vals = []any{0.0, -1.5, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(-1), math.NaN(), math.Copysign(0, -1)}
	case reflect.Float64:
		vals = []any{0.0, 0.1, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN(), math.Copysign(0, -1)}
	case reflect.String:
		vals = []any{"", "a", "漢é𐍈", "\x00", "a\x00b", "\xff"}
	case reflect.Slice:
		vals = []any{"", "a", "\x00\xff", "abc", "\x00"}
	}
	var rvs []reflect.Value
	for _, v := range vals {
		rv := reflect.ValueOf(v)
		if fs.elem().Kind() == reflect.Slice {
			rv = reflect.ValueOf([]byte(v.(string)))
		}
		rv = rv.Convert(fs.elem())
		if fs.typ.Kind() == reflect.Pointer {
			p := reflect.New(fs.elem())
			p.Elem().Set(rv)
			rv = p
		}
		rvs = append(rvs, rv)
	}
	if fs.typ.Kind() == reflect.Pointer || fs.typ.Kind() == reflect.Slice {
		rvs = append(rvs, reflect.Zero(fs.typ))
	}
	return rvs
}

// toValue is the value in a row for a field.
func toValue(rv reflect.Value, notNull bool) Value {
	if rv.Kind() == reflect.Pointer {
		if rv.IsNil() {
			return nil
		}
		rv = rv.Elem()
	}
	switch rv.Kind() {
	case reflect.Bool:
		return T(rv.Bool())
	case reflect.Float32, reflect.Float64:
		return F(rv.Float())
	case reflect.String:
		return S(rv.String())
	case reflect.Slice:
		if rv.IsNil() && !notNull {
			return nil
		}
		return B(append([]byte{}, rv.Bytes()...))
	}
	return I(rv.Int())
}

func structRow(st reflect.Value, specs []fieldSpec) []Value {
	var row []Value
	for i, fs := range specs {
		row = append(row, toValue(st.Field(i), fs.notNull))
	}
	return row
}

func keyOf(specs []fieldSpec) []types.ColumnKey {
	var key []types.ColumnKey
	for i, fs := range specs {
		if fs.primary {
			key = append(key, ck(i, false))
		}
	}
	return key
}

var typedName = types.TableName{Database: id("d"), Schema: id("s"), Table: id("typed")}

func typedDef(specs []fieldSpec, names []types.Identifier) *tdef {
	d := &tdef{tid: 600, name: typedName, cols: names, key: keyOf(specs)}
	for _, fs := range specs {
		d.types = append(d.types, fs.columnType())
	}
	return d
}

// rawRows is the rows of a table without using structs.
func rawRows(stx storage.Transaction, def *tdef) ([][]Value, error) {
	tbl, err := stx.OpenTable(ctx, def.tid, def.name, def.cols, def.types, def.key)
	if err != nil {
		return nil, err
	}
	rows, err := tbl.Rows(ctx, nil, nil, nil, nil)
	if err != nil {
		return nil, err
	}
	defer rows.Close(ctx)
	return readAll(rows)
}

type tRow struct {
	A int8    `maho:"primary"`
	B *string `maho:"size=2,primary"`
	C []byte  `maho:"size=3"`
	D *float64
	E bool
	F int32
}

var tRowSpecs = []fieldSpec{
	{typ: reflect.TypeOf(int8(0)), primary: true}, {typ: reflect.TypeOf((*string)(nil)), size: 2, primary: true},
	{typ: reflect.TypeOf([]byte(nil)), size: 3}, {typ: reflect.TypeOf((*float64)(nil))}, {typ: reflect.TypeOf(false)},
	{typ: reflect.TypeOf(int32(0))},
}

func ptr[T any](t T) *T { return &t }

var tRows = []tRow{
	{1, nil, nil, nil, false, 1},
	{1, ptr("x"), []byte("abc"), ptr(1.5), true, -1},
	{2, ptr(""), []byte{}, ptr(0.0), false, 0},
	{2, ptr("xy"), []byte{0}, nil, true, math.MaxInt32},
	{-1, ptr("z"), nil, ptr(2.0), true, 7},
}

// An update is what a callback returns, and the columns and values which that means.
type tUpdate struct {
	name  string
	st    any
	err   error
	cols  []types.ColumnNum
	vals  []Value
	panic bool
}

var errCallback = errors.New("callback failed")

var tUpdates = []tUpdate{
	{name: "nothing"},
	{name: "c", st: &struct{ C []byte }{[]byte("new")}, cols: []types.ColumnNum{2}, vals: []Value{B("new")}},
	{name: "d,c", st: &struct {
		D *float64
		C []byte
	}{}, cols: []types.ColumnNum{3, 2}, vals: []Value{nil, nil}},
	{name: "key b", st: &struct{ B *string }{ptr("x")}, cols: []types.ColumnNum{1}, vals: []Value{S("x")}},
	{name: "f,a", st: &struct {
		F int32
		A int8
	}{9, 2}, cols: []types.ColumnNum{5, 0}, vals: []Value{I(9), I(2)}},
	{name: "all", st: &tRow{2, nil, []byte("q"), ptr(9.0), true, 3}, cols: []types.ColumnNum{0, 1, 2, 3, 4, 5},
		vals: []Value{I(2), nil, B("q"), F(9), T(true), I(3)}},
	{name: "e", st: &struct{ E bool }{true}, cols: []types.ColumnNum{4}, vals: []Value{T(true)}},
	{name: "error", err: errCallback},
	{name: "eof", err: io.EOF},
	{name: "too long", st: &struct{ C []byte }{[]byte("long")}, panic: true},
}

func init() {
	checks["C19"] = checkC19
}

func checkC19(r *Run) {
	r.Assume("Columns are named by the snake case of the field names, where an upper case letter starts a word "+
		"unless it follows another.", "A value too long for its column is refused, by an error or a panic.",
		"A missing slice in a not null field reads back as an empty one or a missing one.")

	// Names of fields.
	const letters = "AbZ1"
	for n := 0; n <= Pick(r, 6, 8); n++ {
		r.Cases(fmt.Sprintf("names/%d", n), Power(4, n)*3, func(w *Worker, i int64) {
			name := []string{"A", "Éa", "Tab"}[i%3]
			for _, k := range SeqDigits(i/3, 4, n, nil) {
				name += letters[k : k+1]
			}
			specs := []fieldSpec{{typ: fieldTypes[8]}}
			ti := engine.MakeTypedInfo(600, typedName, reflect.New(structOf([]string{name}, specs)).Interface())
			if got := ti.TableType().ColumnNames; len(got) != 1 || got[0] != qid(snake(name)) {
				w.Fail("name", "field %s: got %v; want %s", name, got, snake(name))
			}
			w.r.trans.Add(1)
			w.r.State(hash64(name))
		})
	}

	// Every pair of fields with tags.
	tspecs := tagSpecs()
	nt := int64(len(tspecs))
	r.Cases("definitions", nt*(nt+1), func(w *Worker, i int64) {
		specs := []fieldSpec{tspecs[i/(nt+1)]}
		if k := i % (nt + 1); k < nt {
			specs = append(specs, tspecs[k])
		}
		fnames := []string{"AbcDef", "GhiJKL"}
		typ := structOf(fnames[:len(specs)], specs)
		st := reflect.New(typ).Elem().Interface()
		if i%2 == 1 {
			st = reflect.New(typ).Interface()
		}
		ti := engine.MakeTypedInfo(600, typedName, st)
		tt := ti.TableType()
		def := typedDef(specs, nil)
		for j, fs := range specs {
			if fs.name != "" {
				def.cols = append(def.cols, qid(fs.name))
			} else {
				def.cols = append(def.cols, qid([]string{"abc_def", "ghi_jkl"}[j]))
			}
		}
		w.r.trans.Add(1)
		got := &tdef{tid: ti.TableId(), name: ti.TableName(), cols: tt.ColumnNames, types: tt.ColumnTypes, key: tt.Key}
		if !got.same(def) || tt.Version != 1 || tt.Indexes != nil || tt.ColumnDefaults != nil {
			w.Fail("definition", "%s: got %s; want %s", typ, got.describe(), def.describe())
		}
		w.r.State(hash64(def.describe()))
	})

	typedRefused(r)
	typedLarge(r)
	typedSizes(r)
	typedMany(r)

	// Every pair of types of fields, the first of them the key, with every value.
	pspecs := plainSpecs()
	np := int64(len(pspecs))
	const shifts = 8
	r.Cases("values", np*np*shifts*2, func(w *Worker, i int64) {
		ds := Digits(i, np, np, shifts, 2)
		specs := []fieldSpec{pspecs[ds[0]], pspecs[ds[1]]}
		kdx := ds[3]
		specs[kdx].primary = true
		dom := [2][]reflect.Value{fieldValues(specs[0]), fieldValues(specs[1])}
		if ds[2] >= len(dom[1-kdx]) {
			return
		}
		typ := structOf([]string{"AaBb", "CcDd"}, specs)
		def := typedDef(specs, []types.Identifier{qid("aa_bb"), qid("cc_dd")})
		ti := engine.MakeTypedInfo(600, typedName, reflect.New(typ).Interface())
		st, _ := newStore()
		stx := st.Begin()
		if err := engine.CreateTypedTable(ctx, stx, ti); err != nil {
			w.Fail("create", "%s: %s", typ, err)
			return
		}
		mt := &mtable{def: def}
		var structs []any
		var rows [][]Value
		for j := range dom[kdx] {
			sp := reflect.New(typ)
			sp.Elem().Field(kdx).Set(dom[kdx][j])
			sp.Elem().Field(1 - kdx).Set(dom[1-kdx][(j+ds[2])%len(dom[1-kdx])])
			row := structRow(sp.Elem(), specs)
			if _, found := mt.find(row); found {
				continue // An equal key: for example, negative zero.
			}
			mt.add(row)
			structs = append(structs, sp.Interface())
			rows = append(rows, row)
		}
		w.r.trans.Add(int64(2*len(rows) + 2))
		if err := engine.TypedTableInsert(ctx, stx, ti, structs...); err != nil {
			w.Fail("insert", "%s: %s: %s", typ, fmtRows(rows), err)
			return
		}
		got, err := rawRows(stx, def)
		if err != nil || !sameRows(got, mt.rows) {
			w.Fail("insert", "%s: inserted %s; got %s, %v", typ, fmtRows(mt.rows), fmtRows(got), err)
			return
		}

		// Select and convert to structs; the struct already has something in it.
		n := 0
		err = engine.TypedTableSelect(ctx, stx, ti, nil, nil, func(row types.Row) error {
			sp := reflect.New(typ)
			sp.Elem().Field(0).Set(dom[0][(n+1)%len(dom[0])])
			sp.Elem().Field(1).Set(dom[1][(n+1)%len(dom[1])])
			if n < len(mt.rows) && !sameRow(row, mt.rows[n]) {
				w.Fail("select", "%s: got %s; want %s", typ, fmtRow(row), fmtRow(mt.rows[n]))
			}
			ti.RowToStruct(row, sp.Interface())
			if back := structRow(sp.Elem(), specs); n < len(mt.rows) && !sameRow(back, mt.rows[n]) {
				w.Fail("struct", "%s: %s became %s", typ, fmtRow(mt.rows[n]), fmtRow(back))
			}
			n++
			return nil
		})
		if err != nil || n != len(mt.rows) {
			w.Fail("select", "%s: %d rows of %d, %v", typ, n, len(mt.rows), err)
		}

		// Look each of them up.
		for j, row := range rows {
			sp := reflect.New(typ)
			sp.Elem().Field(kdx).Set(reflect.ValueOf(structs[j]).Elem().Field(kdx))
			sp.Elem().Field(1 - kdx).Set(dom[1-kdx][(j+ds[2]+1)%len(dom[1-kdx])])
			err := engine.TypedTableLookup(ctx, stx, ti, sp.Interface())
			if back := structRow(sp.Elem(), specs); err != nil || !sameRow(back, row) {
				w.Fail("lookup", "%s: lookup of %s gave %s, %v", typ, fmtRow(row), fmtRow(back), err)
			}
		}
		if err := stx.Commit(ctx); err != nil {
			w.Fail("commit", "%s: %s", typ, err)
		}
		w.r.State(hash64(typ.String(), fmtRows(mt.rows)))
	})

	tdefn := typedDef(tRowSpecs, []types.Identifier{qid("a"), qid("b"), qid("c"), qid("d"), qid("e"), qid("f")})
	tinfo := engine.MakeTypedInfo(600, typedName, tRow{})
	rowOf := func(t *tRow) []Value {
		if t == nil {
			return nil
		}
		return structRow(reflect.ValueOf(t).Elem(), tRowSpecs)
	}
	setup := func(w *Worker, mask int, max int) (storage.Store, storage.Transaction, *mtable) {
		st, err := newStore()
		if err != nil {
			w.Fail("init", "%s", err)
			return nil, nil, nil
		}
		stx := st.Begin()
		mt := &mtable{def: tdefn}
		var structs []any
		for k := range tRows[:max] {
			if mask&(1<<k) != 0 {
				structs = append(structs, &tRows[k])
				mt.add(rowOf(&tRows[k]))
			}
		}
		if err := engine.CreateTypedTable(ctx, stx, tinfo); err != nil {
			w.Fail("create", "%s", err)
			return nil, nil, nil
		}
		if err := engine.TypedTableInsert(ctx, stx, tinfo, structs...); err != nil {
			w.Fail("insert", "%s", err)
			return nil, nil, nil
		}
		return st, stx, mt
	}
	ends := []*tRow{nil, {A: 1}, {A: 1, B: ptr("x")}, {A: 2, B: ptr("")}, {A: -128}, {A: 127}, {A: 1, B: ptr("a")}}
	iface := func(t *tRow) any {
		if t == nil {
			return nil
		}
		return t
	}
	check := func(w *Worker, what string, stx storage.Transaction, mt *mtable) {
		got, err := rawRows(stx, tdefn)
		if err != nil || !sameRows(got, mt.rows) {
			w.Fail("rows", "%s: got %s, %v; want %s", what, fmtRows(got), err, fmtRows(mt.rows))
		}
		if err := stx.Commit(ctx); err != nil {
			w.Fail("commit", "%s: %s", what, err)
		}
		w.r.State(hash64(fmtRows(mt.rows)))
	}

	// Select with every pair of bounds, stopped at every row.
	ne := int64(len(ends))
	r.Cases("select", 32*ne*ne*7*2, func(w *Worker, i int64) {
		ds := Digits(i, 32, ne, ne, 7, 2)
		min, max := ends[ds[1]], ends[ds[2]]
		stop := [...]error{io.EOF, errCallback}[ds[4]]
		_, stx, mt := setup(w, ds[0], 5)
		if stx == nil {
			return
		}
		want := mt.scan(rowOf(min), rowOf(max), nil)
		full := len(want) <= ds[3]
		if !full {
			want = want[:ds[3]+1]
		}
		var got [][]Value
		err := engine.TypedTableSelect(ctx, stx, tinfo, iface(min), iface(max), func(row types.Row) error {
			got = append(got, copyRow(row))
			if len(got) == ds[3]+1 {
				return stop
			}
			return nil
		})
		w.r.trans.Add(1)
		var wantErr error
		if !full && stop != io.EOF {
			wantErr = stop
		}
		what := fmt.Sprintf("select from %s to %s of %s, stopped by %v at %d", fmtRow(rowOf(min)), fmtRow(rowOf(max)),
			fmtRows(mt.rows), stop, ds[3])
		if !errors.Is(err, wantErr) || (err == nil) != (wantErr == nil) || !sameRows(got, want) {
			w.Fail("select", "%s: got %s, %v; want %s, %v", what, fmtRows(got), err, fmtRows(want), wantErr)
		}
		if ds[3] == 0 && ds[2] == 0 {
			// The first bound is also looked up.
			sp := tRow{F: 77}
			if min != nil {
				sp = *min
				sp.F = 77
			}
			row := rowOf(&sp)
			n, found := mt.find(row)
			err := engine.TypedTableLookup(ctx, stx, tinfo, &sp)
			if found && (err != nil || !sameRow(rowOf(&sp), mt.rows[n])) {
				w.Fail("lookup", "lookup of %s: got %s, %v; want %s", fmtRow(row), fmtRow(rowOf(&sp)), err, fmtRow(mt.rows[n]))
			} else if !found && (err != io.EOF || !sameRow(rowOf(&sp), row)) {
				w.Fail("lookup", "lookup of missing %s: got %s, %v", fmtRow(row), fmtRow(rowOf(&sp)), err)
			}
		}
		check(w, what, stx, mt)
	})

	// Updates and deletes with every decision for each row.
	nu := int64(len(tUpdates))
	nr := Pick(r, 3, 4)
	bounds := [][2]*tRow{{nil, nil}, {ends[1], ends[2]}, {ends[2], nil}, {nil, ends[2]}}
	r.Cases("update", int64(1<<nr)*int64(len(bounds))*Power(nu, nr), func(w *Worker, i int64) {
		pick := SeqDigits(i%Power(nu, nr), nu, nr, nil)
		i /= Power(nu, nr)
		bd := bounds[i%int64(len(bounds))]
		_, stx, mt := setup(w, int(i)/len(bounds), nr)
		if stx == nil {
			return
		}
		what := fmt.Sprintf("update from %s to %s of %s:", fmtRow(rowOf(bd[0])), fmtRow(rowOf(bd[1])), fmtRows(mt.rows))
		rows := mt.scan(rowOf(bd[0]), rowOf(bd[1]), nil)
		for k := len(rows); k < nr; k++ {
			if pick[k] != 0 {
				return // The same as another case.
			}
		}
		want, visited := oOK, 0
		for k, row := range rows {
			up := tUpdates[pick[k]]
			what += " " + up.name
			visited++
			if up.err != nil {
				if up.err != io.EOF {
					want = oErr
				}
				break
			} else if up.panic {
				want = oPanic
				break
			} else if up.st != nil && !mt.update(row, up.cols, up.vals) {
				want = oErr
				break
			}
		}
		k := 0
		o, txt := try(func() error {
			return engine.TypedTableUpdate(ctx, stx, tinfo, iface(bd[0]), iface(bd[1]),
				func(row types.Row) (interface{}, error) {
					if k >= len(rows) {
						k++
						return nil, nil
					}
					if !sameRow(row, rows[k]) {
						w.Fail("visit", "%s: visited %s; want %s", what, fmtRow(row), fmtRow(rows[k]))
					}
					up := tUpdates[pick[k]]
					k++
					return up.st, up.err
				})
		})
		w.r.trans.Add(int64(visited))
		if want == oPanic && o == oErr {
			o = want
		}
		if o != want || k != visited {
			w.Fail("update", "%s: got %s %s, %d rows visited; want %s, %d", what, o, txt, k, want, visited)
		}
		check(w, what, stx, mt)
	})

	r.Cases("delete", 32*int64(len(bounds))*Power(4, 5), func(w *Worker, i int64) {
		pick := SeqDigits(i%Power(4, 5), 4, 5, nil)
		i /= Power(4, 5)
		bd := bounds[i%int64(len(bounds))]
		if bits.OnesCount(uint(i)/uint(len(bounds))) < 5 && pick[4] != 0 {
			return
		}
		_, stx, mt := setup(w, int(i)/len(bounds), 5)
		if stx == nil {
			return
		}
		rows := mt.scan(rowOf(bd[0]), rowOf(bd[1]), nil)
		what := fmt.Sprintf("delete from %s to %s of %s: decisions %v", fmtRow(rowOf(bd[0])), fmtRow(rowOf(bd[1])), fmtRows(mt.rows), pick)
		want, visited := oOK, 0
		for k, row := range rows {
			visited++
			if pick[k] == 1 {
				mt.remove(row)
			} else if pick[k] == 2 {
				want = oErr
				break
			} else if pick[k] == 3 {
				break
			}
		}
		k := 0
		o, txt := try(func() error {
			return engine.TypedTableDelete(ctx, stx, tinfo, iface(bd[0]), iface(bd[1]), func(row types.Row) (bool, error) {
				if k >= len(rows) {
					k++
					return false, nil
				}
				if !sameRow(row, rows[k]) {
					w.Fail("visit", "%s: visited %s; want %s", what, fmtRow(row), fmtRow(rows[k]))
				}
				k++
				return pick[k-1]&1 == 1, []error{nil, nil, errCallback, io.EOF}[pick[k-1]]
			})
		})
		w.r.trans.Add(int64(visited))
		if o != want || k != visited {
			w.Fail("delete", "%s: got %s %s, %d rows visited; want %s, %d", what, o, txt, k, want, visited)
		}
		check(w, what, stx, mt)
	})

	// Histories: with structs and with rows, in transactions which are committed or rolled back.
	type top struct {
		name string
		fn   func(stx storage.Transaction, mt *mtable) (error, bool)
	}
	insert := func(ks ...int) top {
		return top{fmt.Sprint("insert ", ks), func(stx storage.Transaction, mt *mtable) (error, bool) {
			var structs []any
			var rows [][]Value
			for _, k := range ks {
				structs = append(structs, &tRows[k])
				rows = append(rows, rowOf(&tRows[k]))
			}
			ok := mt.insert(rows)
			return engine.TypedTableInsert(ctx, stx, tinfo, structs...), ok
		}}
	}
	update := func(bd [2]*tRow, u int) top {
		return top{fmt.Sprintf("update %s to %s %s", fmtRow(rowOf(bd[0])), fmtRow(rowOf(bd[1])), tUpdates[u].name),
			func(stx storage.Transaction, mt *mtable) (error, bool) {
				ok := true
				for _, row := range mt.scan(rowOf(bd[0]), rowOf(bd[1]), nil) {
					if !mt.update(row, tUpdates[u].cols, tUpdates[u].vals) {
						ok = false
						break
					}
				}
				return engine.TypedTableUpdate(ctx, stx, tinfo, iface(bd[0]), iface(bd[1]),
					func(row types.Row) (interface{}, error) { return tUpdates[u].st, nil }), ok
			}}
	}
	remove := func(bd [2]*tRow) top {
		return top{fmt.Sprintf("delete %s to %s", fmtRow(rowOf(bd[0])), fmtRow(rowOf(bd[1]))),
			func(stx storage.Transaction, mt *mtable) (error, bool) {
				for _, row := range mt.scan(rowOf(bd[0]), rowOf(bd[1]), nil) {
					mt.remove(row)
				}
				return engine.TypedTableDelete(ctx, stx, tinfo, iface(bd[0]), iface(bd[1]),
					func(row types.Row) (bool, error) { return true, nil }), true
			}}
	}
	tops := []top{
		insert(0), insert(1, 3), insert(2, 4), insert(4, 1), insert(3, 3),
		update(bounds[0], 1), update(bounds[2], 2), update(bounds[1], 3), update(bounds[3], 4),
		update([2]*tRow{ends[3], ends[3]}, 5),
		remove(bounds[0]), remove(bounds[2]), remove(bounds[3]),
		{"insert row", func(stx storage.Transaction, mt *mtable) (error, bool) {
			row := []Value{I(1), S("m"), B("raw"), F(0.5), T(false), I(5)}
			ok := mt.insert([][]Value{row})
			tbl, err := stx.OpenTable(ctx, tdefn.tid, tdefn.name, tdefn.cols, tdefn.types, tdefn.key)
			if err != nil {
				return err, ok
			}
			return tbl.Insert(ctx, []types.Row{row}), ok
		}},
	}
	no := int64(len(tops)) + 2
	for n := 1; n <= Pick(r, 4, 5); n++ {
		r.Cases(fmt.Sprintf("history/%d", n), Power(no, n), func(w *Worker, i int64) {
			st, stx, mt := setup(w, 0b01010, 5)
			if stx == nil {
				return
			}
			committed := (&mtable{def: tdefn}).clone()
			if err := stx.Commit(ctx); err != nil {
				w.Fail("commit", "%s", err)
				return
			}
			committed = mt.clone()
			stx = st.Begin()
			what := ""
			for _, k := range SeqDigits(i, no, n, nil) {
				if k >= len(tops) {
					if k == len(tops) {
						what += "; commit"
						if err := stx.Commit(ctx); err != nil {
							w.Fail("commit", "%s: %s", what, err)
							return
						}
						committed = mt.clone()
					} else {
						what += "; rollback"
						if err := stx.Rollback(); err != nil {
							w.Fail("rollback", "%s: %s", what, err)
							return
						}
						mt = committed.clone()
					}
					stx = st.Begin()
					continue
				}
				what += "; " + tops[k].name
				err, ok := tops[k].fn(stx, mt)
				w.r.trans.Add(1)
				if (err == nil) != ok {
					w.Fail("result", "%s: got %v; want ok to be %v", what, err, ok)
					return
				}
			}
			// Through structs.
			var got [][]Value
			err := engine.TypedTableSelect(ctx, stx, tinfo, nil, nil, func(row types.Row) error {
				var t tRow
				tinfo.RowToStruct(row, &t)
				got = append(got, rowOf(&t))
				return nil
			})
			if err != nil || !sameRows(got, mt.rows) {
				w.Fail("history", "%s: got %s, %v; want %s", what, fmtRows(got), err, fmtRows(mt.rows))
			}
			check(w, what, stx, mt)
			if i == 99 {
				w.r.Sample(what)
			}
		})
	}
}
