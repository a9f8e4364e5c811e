// C35: statements which define things.
package main

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

func init() {
	checks["C35"] = checkC35
}

// defs is a model of the catalog: the definition of each table, by path, and "" for databases and schemas.
type defs map[string]string

func showDef(names []types.Identifier, cts []types.ColumnType, key []types.ColumnKey) string {
	var sb strings.Builder
	for i, nam := range names {
		fmt.Fprintf(&sb, "%q/%d ", nam.String(), nam)
		if i < len(cts) {
			ct := cts[i]
			fmt.Fprintf(&sb, "%d %d %v %v, ", ct.Type, ct.Size, ct.Fixed, ct.NotNull)
		}
	}
	fmt.Fprintf(&sb, "%d:", len(cts))
	for _, ck := range key {
		fmt.Fprintf(&sb, " %d %v", ck.Column(), ck.Reverse())
	}
	return sb.String()
}

func path(parts ...types.Identifier) string {
	var ss []string
	for _, p := range parts {
		ss = append(ss, p.String())
	}
	return strings.Join(ss, "/")
}

func tablePath(tn types.TableName) string { return path(tn.Database, tn.Schema, tn.Table) }

func (ds defs) String() string {
	var ss []string
	for k, v := range ds {
		ss = append(ss, k+" "+v)
	}
	sort.Strings(ss)
	return strings.Join(ss, "\n")
}

func (ds defs) remove(p string) {
	for k := range ds {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(ds, k)
		}
	}
}

// readDefs returns the catalog, other than the database of the system; tables are opened by the names
// used by a statement, if they have one.
func readDefs(eng engine.Engine) (defs, error) {
	ds := defs{}
	dbs, err := eng.ListDatabases()
	if err != nil {
		return nil, err
	}
	tx := eng.Begin()
	defer tx.Rollback()
	for _, db := range dbs {
		if db == types.SYSTEM {
			continue
		}
		ds[path(db)] = ""
		schemas, err := tx.ListSchemas(ctx, db)
		if err != nil {
			return nil, err
		}
		for _, sn := range schemas {
			ds[path(db, sn)] = ""
			tables, err := tx.ListTables(ctx, types.SchemaName{Database: db, Schema: sn})
			if err != nil {
				return nil, err
			}
			for _, tbl := range tables {
				t, err := tx.OpenTable(ctx, types.TableName{Database: db, Schema: sn, Table: tbl})
				if err != nil {
					return nil, err
				}
				tt := t.Type()
				ds[path(db, sn, tbl)] = showDef(tt.ColumnNames, tt.ColumnTypes, tt.Key)
			}
		}
	}
	return ds, nil
}

// apply does what a statement says to the catalog; false if it fails, and nothing is changed.
func (ds defs) apply(st sql.Stmt, resolve sql.Resolver) bool {
	has := func(p string) bool {
		_, ok := ds[p]
		return ok
	}
	switch st := st.(type) {
	case *sql.CreateDatabase:
		p := path(st.Database)
		if has(p) || len(st.Options) > 0 {
			return false
		}
		ds[p] = ""
		return true
	case *sql.DropDatabase:
		p := path(st.Database)
		if !has(p) {
			return st.IfExists
		}
		ds.remove(p)
		return true
	case *sql.CreateSchema:
		sn := resolve.ResolveSchema(st.Schema)
		p := path(sn.Database, sn.Schema)
		if has(p) || !has(path(sn.Database)) {
			return false
		}
		ds[p] = ""
		return true
	case *sql.DropSchema:
		sn := resolve.ResolveSchema(st.Schema)
		p := path(sn.Database, sn.Schema)
		if !has(p) {
			return st.IfExists
		}
		ds.remove(p)
		return true
	case *sql.CreateTable:
		tn := resolve.ResolveTable(st.Table)
		p := tablePath(tn)
		if has(p) {
			return st.IfNotExists
		} else if !has(path(tn.Database, tn.Schema)) {
			return false
		}
		ds[p] = showDef(st.Columns, st.ColumnTypes, primaryOf(st))
		return true
	case *sql.DropTable:
		if !st.IfExists {
			seen := map[string]bool{}
			for _, tn := range st.Tables {
				p := tablePath(resolve.ResolveTable(tn))
				if !has(p) || seen[p] {
					return false
				}
				seen[p] = true
			}
		}
		for _, tn := range st.Tables {
			ds.remove(tablePath(resolve.ResolveTable(tn)))
		}
		return true
	}
	panic("unexpected statement")
}

// primaryOf is the key of a table: of its primary constraint, if it has one.
func primaryOf(st *sql.CreateTable) []types.ColumnKey {
	var key []types.ColumnKey
	for _, c := range st.Constraints {
		if c.Type == sql.PrimaryConstraint {
			for k, col := range c.Key.Columns {
				key = append(key, ck(slices.Index(st.Columns, col), c.Key.Reverse[k]))
			}
		}
	}
	return key
}

// A fixedResolver resolves names as a session in the database maho and the schema public.
type fixedResolver struct{}

func (fixedResolver) ResolveTable(tn types.TableName) types.TableName {
	if tn.Database == 0 {
		tn.Database = types.MAHO
		if tn.Schema == 0 {
			tn.Schema = types.PUBLIC
		}
	}
	return tn
}

func (fixedResolver) ResolveSchema(sn types.SchemaName) types.SchemaName {
	if sn.Database == 0 {
		sn.Database = types.MAHO
	}
	return sn
}

// A defDriver evaluates statements with a session, and the model.
type defDriver struct {
	w        *Worker
	eng      engine.Engine
	ses      *evaluate.Session
	ds, save defs // now, and as of the start of the transaction
	open     bool
	hist     []string
}

func newDefDriver(w *Worker) *defDriver {
	store, err := newStore()
	if err != nil {
		w.Fail("init", "%s", err)
		return nil
	}
	eng := engine.NewEngine(store)
	return &defDriver{w: w, eng: eng, ses: evaluate.NewSession(eng, types.MAHO, types.PUBLIC),
		ds: defs{"maho": "", "maho/public": ""}}
}

// make adds what is needed for a table, schema, or database to exist.
func (d *defDriver) make(parts ...types.Identifier) {
	if d.w.Failed() {
		return
	}
	has := func(n int) bool {
		_, ok := d.ds[path(parts[:n]...)]
		return ok
	}
	if !has(1) {
		if err := d.eng.CreateDatabase(parts[0], nil); err != nil {
			d.w.Fail("make", "create database %s: %s", parts[0], err)
		}
		d.ds[path(parts[0])] = ""
	}
	tx := d.eng.Begin()
	if len(parts) > 1 && !has(2) {
		if err := tx.CreateSchema(ctx, types.SchemaName{Database: parts[0], Schema: parts[1]}); err != nil {
			d.w.Fail("make", "create schema %s: %s", path(parts[:2]...), err)
		}
		d.ds[path(parts[:2]...)] = ""
	}
	if len(parts) > 2 && !has(3) {
		names, cts := ids("other"), []types.ColumnType{types.NullInt64ColType}
		err := tx.CreateTable(ctx, types.TableName{Database: parts[0], Schema: parts[1], Table: parts[2]}, names, cts, nil)
		if err != nil {
			d.w.Fail("make", "create table %s: %s", path(parts...), err)
		}
		d.ds[path(parts...)] = showDef(names, cts, nil)
	}
	if err := tx.Commit(ctx); err != nil {
		d.w.Fail("make", "commit: %s", err)
	}
}

func (d *defDriver) stmt(text string, want sql.Stmt) {
	if d.w.Failed() {
		return
	}
	d.hist = append(d.hist, text)
	ok := true
	switch want.(type) {
	case *sql.Begin:
		if ok = !d.open; ok {
			d.save, d.open = maps.Clone(d.ds), true
		}
	case *sql.Commit:
		ok, d.open = d.open, false
	case *sql.Rollback:
		if ok = d.open; ok {
			d.ds, d.open = d.save, false
		}
	case *sql.CreateDatabase, *sql.DropDatabase:
		if ok = !d.open; ok {
			ok = d.ds.apply(want, fixedResolver{})
		}
	default:
		ok = d.ds.apply(want, fixedResolver{})
	}
	ps := parseAll(text, 1)
	if len(ps) != 1 || ps[0].err != nil {
		return // C26
	}
	err := d.ses.Evaluate(ctx, ps[0].stmt)
	d.w.r.trans.Add(1)
	if (err == nil) != ok {
		d.w.Fail("result", "%q: %v; want ok to be %v", d.hist, err, ok)
	}
}

func (d *defDriver) check() {
	if d.w.Failed() {
		return
	}
	got, err := readDefs(d.eng)
	if err != nil {
		d.w.Fail("read", "%q: %s", d.hist, err)
	} else if !maps.Equal(got, d.ds) {
		d.w.Fail("catalog", "%q:\ngot\n%s\nwant\n%s", d.hist, got, d.ds)
	}
	d.w.r.State(hash64(got.String()))
}

// defined returns the names of what a statement is about.
func defined(st sql.Stmt) [][]types.Identifier {
	var all [][]types.Identifier
	table := func(tn types.TableName) {
		tn = fixedResolver{}.ResolveTable(tn)
		all = append(all, []types.Identifier{tn.Database, tn.Schema, tn.Table})
	}
	schema := func(sn types.SchemaName) {
		sn = fixedResolver{}.ResolveSchema(sn)
		all = append(all, []types.Identifier{sn.Database, sn.Schema})
	}
	switch st := st.(type) {
	case *sql.CreateDatabase:
		all = append(all, []types.Identifier{st.Database})
	case *sql.DropDatabase:
		all = append(all, []types.Identifier{st.Database})
	case *sql.CreateSchema:
		schema(st.Schema)
	case *sql.DropSchema:
		schema(st.Schema)
	case *sql.CreateTable:
		table(st.Table)
	case *sql.DropTable:
		for _, tn := range st.Tables {
			table(tn)
		}
	}
	return all
}

func checkC35(r *Run) {
	r.Assume("Defaults, checks, unique constraints, foreign keys, and CASCADE are not part of the catalog; index definitions are not kept (marked XXX in the code)",
		"the order of listings does not matter")

	// Every definition, of things which exist to different extents, in a transaction or not.
	for _, fb := range []struct {
		name string
		n    int
		deep bool // only where there is a schema, without a transaction
	}{
		{"create-database", Pick(r, 2, 3), false}, {"drop-database", noBound, false}, {"create-schema", noBound, false},
		{"drop-schema", noBound, false}, {"create-table", Pick(r, 2, 3), false}, {"create-table", Pick(r, 3, 4), true},
		{"drop-table", Pick(r, 2, 3), false},
	} {
		f := families[slices.IndexFunc(families, func(f *family) bool { return f.name == fb.name })]
		vecs := enumerate(fb.n, false, f.build)
		most := int64(4) // how much of a thing there is: nothing, its database, its schema, or a table
		if fb.name == "drop-table" {
			most = 64
		}
		name, ways := f.name, int64(3)
		if fb.deep {
			name, most, ways = name+"/deep", 1, 1
		}
		r.Cases(name, int64(len(vecs))*most*ways, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(vecs)), most, ways)
			if fb.deep {
				ds[1] = 2
			}
			g, want := f.generate(vecs[ds[0]], false, nil)
			things := defined(want)
			if g.bad != "" || ds[1]>>(2*len(things)) != 0 {
				return
			}
			for _, thing := range things {
				if thing[0] == types.SYSTEM {
					return
				}
			}
			d := newDefDriver(w)
			if d == nil {
				return
			}
			// Others which must not be changed.
			d.make(id("other"), types.PUBLIC, id("a"))
			d.make(types.MAHO, id("other"), id("b"))
			for k, thing := range things {
				if n := ds[1] >> (2 * k) & 3; n > len(thing) {
					return // the same as less
				} else if n > 0 {
					d.make(thing[:n]...)
					if n == 3 {
						d.make(thing[0], thing[1], id("another"))
						d.make(thing[0], id("another"), thing[2])
					}
				}
			}
			text := render(g.items, 0)
			switch ds[2] {
			case 0:
				d.stmt(text, want)
			default:
				d.stmt("begin", &sql.Begin{})
				d.stmt(text, want)
				if ds[2] == 1 {
					d.stmt("commit", &sql.Commit{})
				} else {
					d.stmt("rollback", &sql.Rollback{})
				}
			}
			d.check()
			if i%100003 == 7 {
				w.r.Sample(d.hist)
			}
		})
	}

	// Every key, at every place, with a unique constraint before or after it.
	var keys [][]int // columns, which may be missing; negative is descending
	var add func(key []int)
	add = func(key []int) {
		if len(key) > 0 {
			keys = append(keys, key)
		}
		for c := 1; c <= 4 && len(key) < 3; c++ {
			if !slices.Contains(key, c) && !slices.Contains(key, -c) {
				add(append(slices.Clone(key), c))
				add(append(slices.Clone(key), -c))
			}
		}
	}
	add(nil)
	nk := int64(len(keys))
	colNames := []string{"", "a", "b", "c", "z"}
	r.Cases("keys", nk*4*13*2, func(w *Worker, i int64) {
		ds := Digits(i, nk, 4, 13, 2)
		key, at, unique, before := keys[ds[0]], ds[1], ds[2], ds[3]
		st := &sql.CreateTable{Table: types.TableName{Table: id("t")}, Columns: ids("a", "b", "c"),
			ColumnTypes: []types.ColumnType{{Type: types.Int64Type, Size: 8}, {Type: types.StringType, Size: 9},
				{Type: types.BoolType, Size: 1, NotNull: true}}}
		parts := []string{"a bigint", "b varchar(9)", "c bool not null"}
		var texts []string
		ok := true
		con := sql.Constraint{Type: sql.PrimaryConstraint}
		for _, c := range key {
			rev := c < 0
			if rev {
				c = -c
			}
			ok = ok && c < 4
			con.Key.Columns = append(con.Key.Columns, id(colNames[c]))
			con.Key.Reverse = append(con.Key.Reverse, rev)
			texts = append(texts, colNames[c]+[]string{"", " asc", " desc", " desc"}[2*btoi(rev)+i2(i, c)])
		}
		st.Constraints = []sql.Constraint{con}
		parts = slices.Insert(parts, at, "primary key ("+strings.Join(texts, ", ")+")")
		if unique > 0 {
			u := fmt.Sprintf("unique (%s desc)", colNames[(unique-1)%3+1])
			pos := (unique - 1) / 3
			if before == 1 {
				pos = len(parts) - pos
			}
			parts = slices.Insert(parts, pos, u)
		} else if before == 1 {
			return
		}
		text := "create table t (" + strings.Join(parts, ", ") + ")"
		ps := parseAll(text, 1)
		if len(ps) == 1 && ps[0].err != nil {
			return // C29: the keys are the same
		}
		d := newDefDriver(w)
		if d == nil {
			return
		}
		if ok {
			d.stmt(text, st)
		} else if err := d.ses.Evaluate(ctx, ps[0].stmt); err == nil {
			w.Fail("missing", "%s: no error", text)
		}
		d.check()
		if i%1009 == 7 {
			w.r.Sample(text)
		}
	})

	// A unique constraint is not a key: tables with one or two, and without a primary key.
	r.Cases("unique", nk*4*(nk+1)*2, func(w *Worker, i int64) {
		ds := Digits(i, nk, 4, nk+1, 2)
		st := &sql.CreateTable{Table: types.TableName{Table: id("t")}, Columns: ids("a", "b", "c"),
			ColumnTypes: []types.ColumnType{{Type: types.Int64Type, Size: 8}, {Type: types.StringType, Size: 9},
				{Type: types.BoolType, Size: 1, NotNull: true}}}
		parts := []string{"a bigint", "b varchar(9)", "c bool not null"}
		unique := func(key []int) (string, bool) {
			var texts []string
			for _, c := range key {
				if c > 3 || c < -3 {
					return "", false
				} else if c < 0 {
					texts = append(texts, colNames[-c]+" desc")
				} else {
					texts = append(texts, colNames[c])
				}
			}
			return "unique (" + strings.Join(texts, ", ") + ")", true
		}
		one, ok := unique(keys[ds[0]])
		if !ok {
			return
		}
		parts = slices.Insert(parts, ds[1], one)
		if ds[2] > 0 {
			if !r.Thorough() && (ds[0]+ds[2])%11 != 0 {
				return
			}
			two, ok := unique(keys[ds[2]-1])
			if !ok || ds[3] == 1 {
				return
			}
			parts = append(parts, two)
		} else if ds[3] == 1 {
			parts[3-btoi(ds[1] == 3)] += " unique" // a constraint of a column besides
			if strings.HasPrefix(parts[3-btoi(ds[1] == 3)], "unique") {
				return
			}
		}
		text := "create table t (" + strings.Join(parts, ", ") + ")"
		ps := parseAll(text, 1)
		if len(ps) == 1 && ps[0].err != nil {
			return // C29: the keys are the same
		}
		d := newDefDriver(w)
		if d == nil {
			return
		}
		d.stmt(text, st)
		d.check()
		if i%1009 == 7 {
			w.r.Sample(text)
		}
	})

	// Every list of tables to drop, of which some exist, are in another schema, or are named more than once.
	listed := []string{"t", "u", "s.t", "public.u", "maho.public.t", "d.public.t", "x.t", "Q"}
	made := []string{"create table t (a int)", "create table u (b text primary key)", "create table s.t (c bool)"}
	nl := int64(len(listed))
	for n := 1; n <= Pick(r, 4, 5); n++ {
		for ifx := 0; ifx < 2; ifx++ {
			if n == 5 && ifx == 0 {
				continue
			}
			ifx := ifx
			r.Cases(fmt.Sprintf("drop-list/%d/%d", ifx, n), Power(nl, n)*8, func(w *Worker, i int64) {
				if n > 3 && !r.Thorough() && i%8 != 7 {
					return
				}
				d := newDefDriver(w)
				if d == nil {
					return
				}
				d.stmt("create schema s", parseOne("create schema s"))
				for k, text := range made {
					if i>>k&1 == 1 {
						d.stmt(text, parseOne(text))
					}
				}
				var names []string
				st := &sql.DropTable{IfExists: ifx == 1}
				for _, k := range SeqDigits(i/8, nl, n, nil) {
					names = append(names, listed[k])
					var tn types.TableName
					parts := strings.Split(listed[k], ".")
					tn.Table = id(parts[len(parts)-1])
					if len(parts) > 1 {
						tn.Schema = id(parts[len(parts)-2])
					}
					if len(parts) > 2 {
						tn.Database = id(parts[0])
					}
					st.Tables = append(st.Tables, tn)
				}
				d.stmt("drop table "+[]string{"", "if exists "}[ifx]+strings.Join(names, ", "), st)
				d.check()
			})
		}
	}

	// Tables of many columns, with a key of some or of all of them, and another table which is created and
	// dropped after.
	var wides []int
	for n := 1; n <= Pick(r, 140, 220); n++ {
		wides = append(wides, n)
	}
	wtypes := []struct {
		text string
		ct   types.ColumnType
	}{
		{"int", types.ColumnType{Type: types.Int64Type, Size: 4}},
		{"varchar(9)", types.ColumnType{Type: types.StringType, Size: 9}},
		{"bool not null", types.ColumnType{Type: types.BoolType, Size: 1, NotNull: true}},
		{"double", types.ColumnType{Type: types.Float64Type, Size: 8}},
		{"binary(300)", types.ColumnType{Type: types.BytesType, Size: 300, Fixed: true}},
	}
	const wideKeys, wideNames = 5, 2
	r.Cases("wide", int64(len(wides))*wideKeys*wideNames, func(w *Worker, i int64) {
		ds := Digits(i, int64(len(wides)), wideKeys, wideNames)
		n := wides[ds[0]]
		st := &sql.CreateTable{Table: types.TableName{Table: id("t")}}
		var parts []string
		for c := 0; c < n; c++ {
			nam := fmt.Sprintf("c%d", c)
			if ds[2] == 1 {
				nam = fmt.Sprintf("a_longer_name_%d_", c)
			}
			wt := wtypes[(c+c/5)%len(wtypes)]
			st.Columns = append(st.Columns, id(nam))
			st.ColumnTypes = append(st.ColumnTypes, wt.ct)
			parts = append(parts, nam+" "+wt.text)
		}
		key := func(c int, rev bool) []string {
			return []string{st.Columns[c].String() + []string{"", " desc"}[btoi(rev)]}
		}
		var texts []string
		con := sql.Constraint{Type: sql.PrimaryConstraint}
		addKey := func(c int, rev bool) {
			con.Key.Columns = append(con.Key.Columns, st.Columns[c])
			con.Key.Reverse = append(con.Key.Reverse, rev)
			texts = append(texts, key(c, rev)...)
		}
		switch ds[1] {
		case 1:
			addKey(n-1, true)
		case 2:
			addKey(n-1, false)
			if n > 1 {
				addKey(0, true)
			}
		case 3:
			for c := 0; c < n; c++ {
				addKey(c, c%2 == 0)
			}
		case 4:
			for c := 0; c < n; c++ {
				addKey((c+n/2)%n, c%3 == 0)
			}
		}
		if len(texts) > 0 {
			st.Constraints = []sql.Constraint{con}
			parts = slices.Insert(parts, n/2, "primary key ("+strings.Join(texts, ", ")+")")
		}
		d := newDefDriver(w)
		if d == nil {
			return
		}
		d.stmt("create table t ("+strings.Join(parts, ", ")+")", st)
		d.check()
		for _, text := range []string{"create table u (a int)", "drop table u"} {
			d.stmt(text, parseOne(text))
			d.check()
		}
		d.stmt("drop table t", parseOne("drop table t"))
		d.check()
	})

	// Every sequence of some statements.
	texts := []string{
		"create table t (a int primary key, b text)",
		"create table t (b varchar(10) not null, c double, a bool, primary key (c desc, b))",
		"create table if not exists t (c int not null)",
		"create table maho.public.u (a bytes, unique (a), b bigint, constraint p primary key (b, a desc))",
		"create table s.t (a int)",
		"create table maho.s.t (t bool primary key)",
		"create table d.public.t (a char(3))",
		"drop table t", "drop table if exists t, u", "drop table t, u", "drop table if exists maho.s.t",
		"create schema s", "drop schema s", "drop schema if exists maho.public", "create schema d.public",
		"create database d", "drop database if exists d", "drop database maho",
		"begin", "commit", "rollback",
	}
	var stmts []sql.Stmt
	for _, text := range texts {
		stmts = append(stmts, parseOne(text))
	}
	ns := int64(len(texts))
	for n := 1; n <= Pick(r, 3, 4); n++ {
		r.Cases(fmt.Sprintf("sequences/%d", n), Power(ns, n), func(w *Worker, i int64) {
			d := newDefDriver(w)
			if d == nil {
				return
			}
			for _, k := range SeqDigits(i, ns, n, nil) {
				d.stmt(texts[k], stmts[k])
				if !d.open {
					d.check()
				}
			}
			if d.open {
				d.stmt("commit", &sql.Commit{})
				d.check()
			}
			if i%1009 == 7 {
				w.r.Sample(d.hist)
			}
		})
	}

	checkIndexes(r)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// i2 is a bit of i, which is different for each k.
func i2(i int64, k int) int { return int(i>>k) & 1 }

// An indexTx has one table, and records what is done with indexes.
type indexTx struct {
	engine.Transaction // nil
	tn                 types.TableName
	tt                 *engine.TableType
	fail               bool
	calls              []string
}

type indexTable struct{ it *indexTx }

func (tbl indexTable) Name() types.TableName    { return tbl.it.tn }
func (tbl indexTable) Type() *engine.TableType  { return tbl.it.tt }
func (tbl indexTable) TableId() storage.TableId { return 1000 }

func (it *indexTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	if it.tt == nil || tn != it.tn {
		return nil, fmt.Errorf("open %s: %w", tn, engine.ErrTableNotFound)
	}
	return indexTable{it}, nil
}

func (it *indexTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	it.calls = append(it.calls, fmt.Sprintf("create %s %q %s", show3(tn.Database, tn.Schema, tn.Table), in.String(),
		showDef(nil, nil, key)))
	if it.fail {
		return errEngine
	}
	return nil
}

func (it *indexTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	it.calls = append(it.calls, fmt.Sprintf("drop %s %q", show3(tn.Database, tn.Schema, tn.Table), in.String()))
	if it.fail {
		return errEngine
	}
	return nil
}

// checkIndexes checks what is asked of the engine for CREATE INDEX and DROP INDEX.
func checkIndexes(r *Run) {
	for _, f := range families {
		n := Pick(r, 2, 3)
		if f.name != "create-index" && f.name != "drop-index" {
			continue
		}
		vecs := enumerate(n, false, f.build)
		// Which columns of the key there are, the order of the columns, other indexes, and whether it fails.
		r.Cases(f.name, int64(len(vecs))*9*3*6*2, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(vecs)), 9, 3, 6, 2)
			g, want := f.generate(vecs[ds[0]], false, nil)
			it := &indexTx{fail: ds[4] == 1}
			var st *sql.CreateIndex
			var calls []string
			ok := !it.fail
			switch want := want.(type) {
			case *sql.DropIndex:
				if ds[1] > 0 || ds[2] > 0 || ds[3] > 0 {
					return
				}
				it.tn = want.Table
				it.tt = &engine.TableType{}
				calls = []string{fmt.Sprintf("drop %s %q", show3(want.Table.Database, want.Table.Schema, want.Table.Table),
					want.Index.String())}
			case *sql.CreateIndex:
				st = want
				mask := ds[1]
				if len(st.Key.Columns) < 3 && mask < 8 && mask>>len(st.Key.Columns) != 0 {
					return
				}
				it.tn = st.Table
				if mask == 8 { // no table
					ok = false
					break
				}
				it.tt = &engine.TableType{Version: 1}
				cols := []types.Identifier{id("before")}
				missing := false
				for k, col := range st.Key.Columns {
					if mask&(1<<k) != 0 {
						missing = true
					} else {
						cols = append(cols, col)
					}
				}
				cols = append(cols, id("after"))
				switch ds[2] {
				case 1:
					slices.Reverse(cols)
				case 2:
					cols = append(cols[1:], cols[0])
				}
				it.tt.ColumnNames = cols
				for range cols {
					it.tt.ColumnTypes = append(it.tt.ColumnTypes, types.NullInt64ColType)
				}
				var key []types.ColumnKey
				for k, col := range st.Key.Columns {
					key = append(key, ck(slices.Index(cols, col), st.Key.Reverse[k]))
				}
				other := engine.IndexType{Name: id("another"), Key: key}
				same := engine.IndexType{Name: st.Index, Key: []types.ColumnKey{ck(0, false)}}
				it.tt.Indexes = [][]engine.IndexType{nil, {other}, {same}, {same, other}, {other, same}, {other, other}}[ds[3]]
				switch {
				case ds[3] >= 2 && ds[3] <= 4:
					ok = st.IfNotExists
				case missing:
					ok = false
				default:
					calls = []string{fmt.Sprintf("create %s %q %s", show3(st.Table.Database, st.Table.Schema, st.Table.Table),
						st.Index.String(), showDef(nil, nil, key))}
				}
			}
			ps := parseAll(render(g.items, 0), 1)
			if len(ps) != 1 || ps[0].err != nil {
				return // C26
			}
			err := evaluate.Evaluate(ctx, it, ps[0].stmt)
			w.r.trans.Add(1)
			what := fmt.Sprintf("%s of columns %v indexes %v", render(g.items, 0), it.tt, ds[3])
			if (err == nil) != ok {
				w.Fail("index", "%s: %v; want ok to be %v", what, err, ok)
			} else if len(calls) > 0 && it.fail && !errors.Is(err, errEngine) {
				w.Fail("index", "%s: %v; want the error of the engine", what, err)
			}
			if !slices.Equal(it.calls, calls) {
				w.Fail("index", "%s: got %q; want %q", what, it.calls, calls)
			}
			if i%100003 == 7 {
				w.r.Sample(what)
			}
		})
	}
}
