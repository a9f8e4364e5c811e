// C16, C17, C18, and C34: the catalog.
package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// cat is a model of the catalog: what exists, by path: "d", "d/s", or "d/s/t"; the value for a table
// is its definition.
type cat map[string]int

func (c cat) clone() cat {
	n := make(cat, len(c))
	for k, v := range c {
		n[k] = v
	}
	return n
}

func (c cat) String() string {
	var ks []string
	for k, v := range c {
		ks = append(ks, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func (c cat) children(path string) []string {
	var ks []string
	for k := range c {
		rest := k
		if path != "" {
			if !strings.HasPrefix(k, path+"/") {
				continue
			}
			rest = k[len(path)+1:]
		}
		if !strings.Contains(rest, "/") {
			ks = append(ks, rest)
		}
	}
	sort.Strings(ks)
	return ks
}

func (c cat) remove(path string) {
	for k := range c {
		if k == path || strings.HasPrefix(k, path+"/") {
			delete(c, k)
		}
	}
}

type opKind uint8

const (
	oBegin opKind = iota
	oCommit
	oRollback
	oCreate // database, schema, or table
	oDrop
)

type cop struct {
	kind opKind
	path string
	ifx  bool
	def  int
}

func (op cop) String() string {
	switch op.kind {
	case oBegin:
		return "begin"
	case oCommit:
		return "commit"
	case oRollback:
		return "rollback"
	case oCreate:
		return fmt.Sprintf("create %s:%d", op.path, op.def)
	}
	if op.ifx {
		return "drop if exists " + op.path
	}
	return "drop " + op.path
}

// apply is what an operation does to the catalog; false if it fails.
func (c cat) apply(op cop) (cat, bool) {
	_, exists := c[op.path]
	if op.kind == oCreate {
		if k := strings.LastIndexByte(op.path, '/'); k >= 0 {
			if _, ok := c[op.path[:k]]; !ok {
				return c, false
			}
		}
		if exists {
			return c, false
		}
		c = c.clone()
		c[op.path] = op.def
		return c, true
	}
	if !exists {
		return c, op.ifx
	}
	c = c.clone()
	c.remove(op.path)
	return c, true
}

// Definitions of tables.
type tableDef struct {
	cols  []types.Identifier
	types []types.ColumnType
	key   []types.ColumnKey
}

var tableDefs = []tableDef{
	{ids("c"), []types.ColumnType{types.Int64ColType}, nil},
	{ids("a", "b"), []types.ColumnType{{Type: types.StringType, Size: 10, Fixed: true, NotNull: true}, types.BoolColType},
		[]types.ColumnKey{ck(1, true), ck(0, false)}},
	{[]types.Identifier{id("text"), qid("TEXT"), qid("select")}, []types.ColumnType{
		{Type: types.Int64Type, Size: 2, NotNull: true}, {Type: types.BytesType, Size: 4294967295}, {Type: types.Float64Type, Size: 8}},
		[]types.ColumnKey{ck(0, false)}},
}

func (td tableDef) String() string {
	return showType(&engine.TableType{Version: 1, ColumnNames: td.cols, ColumnTypes: td.types, Key: td.key})
}

// A catDriver runs operations on an engine and on the model.
type catDriver struct {
	w         *Worker
	st        storage.Store
	eng       engine.Engine
	tx        engine.Transaction
	committed cat
	cur       cat // in the transaction
	hist      []string
}

func newCatDriver(w *Worker) *catDriver {
	st, err := newStore()
	if err != nil {
		w.Fail("init", "Init: %s", err)
		return nil
	}
	return &catDriver{w: w, st: st, eng: engine.NewEngine(st),
		committed: cat{"maho": 0, "maho/public": 0}}
}

func (d *catDriver) fail(key, format string, args ...any) {
	d.w.Fail(key, "after %s: "+format, append([]any{strings.Join(d.hist, "; ")}, args...)...)
}

func split(path string) []string { return strings.Split(path, "/") }

func (d *catDriver) begin() {
	d.tx = d.eng.Begin()
	d.cur = d.committed
}

func (d *catDriver) commit() {
	if err := d.tx.Commit(ctx); err != nil {
		d.fail("commit", "commit: %s", err)
	}
	d.tx, d.committed = nil, d.cur
}

func (d *catDriver) rollback() {
	if err := d.tx.Rollback(); err != nil {
		d.fail("rollback", "rollback: %s", err)
	}
	d.tx = nil
}

// op runs an operation. One on a database is only possible outside of a transaction, and one on a
// schema or a table outside of one gets its own.
func (d *catDriver) op(op cop) {
	d.hist = append(d.hist, op.String())
	d.w.r.trans.Add(1)
	parts := split(op.path)
	var err error
	var ok bool
	switch {
	case op.kind == oBegin:
		if d.tx == nil {
			d.begin()
		}
		return
	case op.kind == oCommit:
		if d.tx != nil {
			d.commit()
		}
		return
	case op.kind == oRollback:
		if d.tx != nil {
			d.rollback()
		}
		return
	case len(parts) == 1:
		if d.tx != nil {
			d.commit()
		}
		d.committed, ok = d.committed.apply(op)
		if op.kind == oCreate {
			err = d.eng.CreateDatabase(qid2(op.path), nil)
		} else {
			err = d.eng.DropDatabase(qid2(op.path), op.ifx)
		}
	default:
		own := d.tx == nil
		if own {
			d.begin()
		}
		d.cur, ok = d.cur.apply(op)
		switch {
		case len(parts) == 2 && op.kind == oCreate:
			err = d.tx.CreateSchema(ctx, sname(parts...))
		case len(parts) == 2:
			err = d.tx.DropSchema(ctx, sname(parts...), op.ifx)
		case op.kind == oCreate:
			td := tableDefs[op.def]
			err = d.tx.CreateTable(ctx, tname(parts...), append([]types.Identifier{}, td.cols...),
				append([]types.ColumnType{}, td.types...), append([]types.ColumnKey{}, td.key...))
		default:
			err = d.tx.DropTable(ctx, tname(parts...))
			if op.ifx && err != nil && !ok {
				err = nil
			}
		}
		if own {
			d.commit() // An operation which fails changes nothing.
		}
	}
	if (err == nil) != ok {
		d.fail("result", "got %v; want ok to be %v (catalog %s, in the transaction %s)", err, ok, d.committed, d.cur)
	}
}

func names(ids []types.Identifier) []string {
	var ss []string
	for _, id := range ids {
		ss = append(ss, id.String())
	}
	sort.Strings(ss)
	return ss
}

func sameIds(ids []types.Identifier, want []string) bool {
	if len(ids) != len(want) {
		return false
	}
	left := map[types.Identifier]int{}
	for _, s := range want {
		left[qid2(s)]++
	}
	for _, id := range ids {
		if left[id]--; left[id] < 0 {
			return false
		}
	}
	return true
}

// check compares everything that can be listed and opened with the model.
func (d *catDriver) check(dbs, schemas, tables []string) {
	if d.tx == nil {
		d.checkDatabases()
		d.begin()
		defer d.rollback()
	}
	c := d.cur
	for _, db := range dbs {
		got, err := d.tx.ListSchemas(ctx, qid2(db))
		if _, ok := c[db]; ok != (err == nil) {
			d.fail("schemas", "ListSchemas(%s): %v", db, err)
		} else if want := c.children(db); err == nil && !sameIds(got, want) {
			d.fail("schemas", "ListSchemas(%s): got %v; want %v", db, names(got), want)
		}
		for _, sn := range schemas {
			path := db + "/" + sn
			got, err := d.tx.ListTables(ctx, sname(db, sn))
			if _, ok := c[path]; ok != (err == nil) {
				d.fail("tables", "ListTables(%s): %v", path, err)
			} else if want := c.children(path); err == nil && !sameIds(got, want) {
				d.fail("tables", "ListTables(%s): got %v; want %v", path, names(got), want)
			}
			for _, tn := range tables {
				path := path + "/" + tn
				t, err := d.tx.OpenTable(ctx, tname(db, sn, tn))
				def, ok := c[path]
				if ok != (err == nil) {
					d.fail("open", "OpenTable(%s): %v", path, err)
				} else if err == nil {
					if got, want := showType(t.Type()), tableDefs[def].String(); got != want ||
						t.Name() != tname(db, sn, tn) {
						d.fail("definition", "OpenTable(%s): got %s %s; want %s", path, t.Name(), got, want)
					}
				}
			}
		}
	}
}

func (d *catDriver) checkDatabases() {
	got, err := d.eng.ListDatabases()
	if want := append(d.committed.children(""), "system"); err != nil || !sameIds(got, want) {
		d.fail("databases", "ListDatabases: got %v, %v; want %v", names(got), err, want)
	}
}

func catalogOps() []cop {
	var ops []cop
	for k, db := range []string{"a", "ab"} {
		ops = append(ops, cop{oCreate, db, false, 0}, cop{oDrop, db, k == 1, 0})
		for j, sn := range []string{"s", "sa"} {
			path := db + "/" + sn
			ops = append(ops, cop{oCreate, path, false, 0}, cop{oDrop, path, j == k, 0})
			for i, tn := range []string{"t", "ta"} {
				if k == 1 && j != i {
					continue
				}
				ops = append(ops, cop{oCreate, path + "/" + tn, false, (i + j) % 3}, cop{oDrop, path + "/" + tn, false, 0})
			}
		}
	}
	return append(ops, cop{kind: oBegin}, cop{kind: oCommit}, cop{kind: oRollback})
}

var fullCatalog = []cop{
	{oCreate, "a", false, 0}, {oCreate, "ab", false, 0}, {oCreate, "a/s", false, 0}, {oCreate, "a/sa", false, 0},
	{oCreate, "ab/s", false, 0}, {oCreate, "a/s/t", false, 2}, {oCreate, "a/sa/t", false, 1},
	{oCreate, "a/s/ta", false, 0}, {oCreate, "ab/s/t", false, 1},
}

func checkC17(r *Run) {
	r.Assume("Listings are compared as sets with multiplicity; the system database is not dropped.",
		"Indexes are not part of the catalog (CREATE INDEX is not implemented).")

	sameNames(r, []string{"a", "b"}, "none", "all")
	sameNames(r, []string{"info", "tables"}, "all")
	sameNames(r, []string{"public", "databases"}, "all")
	ops := catalogOps()
	no := int64(len(ops))
	dbs, schemas, tables := []string{"a", "ab", "maho"}, []string{"s", "sa", "public"}, []string{"t", "ta"}
	starts := []struct {
		name string
		ops  []cop
	}{
		{"new", nil},
		{"full", fullCatalog},
		{"changing", append(append([]cop{}, fullCatalog...), cop{kind: oBegin}, cop{oDrop, "a/s/t", false, 0},
			cop{oCreate, "ab/sa", false, 0})},
	}
	for _, start := range starts {
		for n := 1; n <= Pick(r, 3, 4); n++ {
			r.Cases(fmt.Sprintf("%s/%d", start.name, n), Power(no, n), func(w *Worker, i int64) {
				d := newCatDriver(w)
				if d == nil {
					return
				}
				for _, op := range start.ops {
					d.op(op)
				}
				for _, k := range SeqDigits(i, no, n, nil) {
					d.op(ops[k])
				}
				if w.Failed() {
					return
				}
				if d.tx != nil {
					w.r.State(hash64(d.committed.String(), d.cur.String()))
					d.check(dbs, schemas, tables)
					d.rollback()
				} else {
					w.r.State(hash64(d.committed.String()))
				}
				d.check(dbs, schemas, tables)
				if i == 7 {
					w.r.Sample(d.hist)
				}
			})
		}
	}

	// The graph of states: every operation from every state, each reached by one path.
	type node struct {
		committed, cur cat
		open           bool
		path           []cop
	}
	key := func(n node) string { return fmt.Sprint(n.committed, "|", n.open, "|", n.cur) }
	first := node{committed: cat{"maho": 0, "maho/public": 0}}
	seen := map[string]bool{key(first): true}
	level := []node{first}
	for depth := 1; depth <= Pick(r, 5, 8) && len(level) > 0; depth++ {
		var mu sync.Mutex
		var next []node
		if max := Pick(r, 500, 20000); len(level) > max {
			r.Assume(fmt.Sprintf("Of the %d states at distance %d in the graph only the first %d are expanded.",
				len(level), depth-1, max))
			level = level[:max]
		}
		r.Cases(fmt.Sprintf("graph/%d", depth), int64(len(level))*no, func(w *Worker, i int64) {
			n, op := level[i/no], ops[i%no]
			d := newCatDriver(w)
			if d == nil {
				return
			}
			for _, op := range n.path {
				d.op(op)
			}
			d.op(op)
			if w.Failed() {
				return
			}
			nn := node{committed: d.committed, cur: cat{}, open: d.tx != nil}
			if nn.open {
				nn.cur = d.cur
				d.check(dbs, schemas, tables)
				d.rollback()
			}
			d.check(dbs, schemas, tables)
			nn.path = append(append([]cop{}, n.path...), op)
			w.r.State(hash64(key(nn)))
			mu.Lock()
			next = append(next, nn)
			mu.Unlock()
		})
		level = nil
		sort.Slice(next, func(i, j int) bool { return fmt.Sprint(next[i].path) < fmt.Sprint(next[j].path) })
		for _, n := range next {
			if k := key(n); !seen[k] {
				seen[k] = true
				level = append(level, n)
			}
		}
	}

	// Every pair of names is different or the same as the names are.
	var spell = []types.Identifier{id("a"), qid("A"), id("é"), qid("É"), id("ab"), id("a_b"), id("b"), id("zz"),
		qid("a b"), qid("a.b"), qid("a/b"), qid("select"), id(strings.Repeat("x", 128)),
		id(strings.Repeat("x", 127)), id(strings.Repeat("é", 64)), qid("'"), id("a0"), qid("\x00"), qid("a\x00"), qid("\xff")}
	ns := int64(len(spell))
	r.Cases("names", ns*ns, func(w *Worker, i int64) {
		n1, n2 := spell[i/ns], spell[i%ns]
		d := newCatDriver(w)
		if d == nil {
			return
		}
		want := func(what string, err error, ok bool) {
			if (err == nil) != ok {
				w.Fail("names", "%q and %q: %s: %v", n1, n2, what, err)
			}
		}
		has := func(what string, got []types.Identifier, err error, want ...types.Identifier) {
			if err == nil && len(want) == 2 && want[0] == want[1] {
				want = want[:1]
			}
			if err == nil && len(got) == len(want) {
				all := true
				for _, id := range want {
					found := false
					for _, g := range got {
						found = found || g == id
					}
					all = all && found
				}
				if all {
					return
				}
			}
			w.Fail("names", "%q and %q: %s: got %q, %v", n1, n2, what, names(got), err)
		}
		want("create database", d.eng.CreateDatabase(n1, nil), true)
		want("create second database", d.eng.CreateDatabase(n2, nil), n1 != n2)
		got, err := d.eng.ListDatabases()
		if n1 != n2 {
			has("databases", got, err, n1, n2, types.SYSTEM, types.MAHO)
		}
		tx := d.eng.Begin()
		s1, s2 := types.SchemaName{n1, n1}, types.SchemaName{n1, n2}
		want("create schema", tx.CreateSchema(ctx, s1), true)
		want("create second schema", tx.CreateSchema(ctx, s2), n1 != n2)
		got, err = tx.ListSchemas(ctx, n1)
		has("schemas", got, err, n1, n2)
		t1, t2 := types.TableName{n1, n2, n1}, types.TableName{n1, n2, n2}
		td := tableDefs[1]
		want("create table", tx.CreateTable(ctx, t1, td.cols, td.types, td.key), true)
		want("create second table", tx.CreateTable(ctx, t2, td.cols, td.types, td.key), n1 != n2)
		got, err = tx.ListTables(ctx, s2)
		has("tables", got, err, n1, n2)
		if n1 != n2 {
			got, err = tx.ListTables(ctx, s1)
			has("tables", got, err)
			got, err = tx.ListSchemas(ctx, n2)
			has("schemas", got, err)
		}
		want("drop table", tx.DropTable(ctx, t1), true)
		_, err = tx.OpenTable(ctx, t2)
		want("open table", err, n1 != n2)
		want("drop schema", tx.DropSchema(ctx, s2, false), true)
		_, err = tx.OpenTable(ctx, t2)
		want("open dropped table", err, false)
		_, err = tx.ListTables(ctx, s1)
		want("list tables", err, n1 != n2)
		tx.Commit(ctx)
		want("drop database", d.eng.DropDatabase(n1, false), true)
		got, err = d.eng.ListDatabases()
		if n1 != n2 {
			has("databases", got, err, n2, types.SYSTEM, types.MAHO)
		} else {
			has("databases", got, err, types.SYSTEM, types.MAHO)
		}
	})

	checkMany(r)

	// Names which are keywords, but not reserved.
	r.Cases("keywords", int64(len(nameKeywords)), func(w *Worker, i int64) {
		kid := id(nameKeywords[i])
		st, err := newStore()
		if err != nil || kid == types.SYSTEM {
			return
		}
		eng := engine.NewEngine(st)
		if err := eng.CreateDatabase(kid, nil); err != nil {
			w.Fail("keyword-create", "create database %s: %s", kid, err)
			return
		}
		got, err := eng.ListDatabases()
		found := false
		for _, g := range got {
			found = found || g == kid
		}
		if !found {
			w.Fail("keyword-listed", "database %s is listed as %q, which is a different name", kid, names(got))
		}
		if err := eng.CreateDatabase(qid(kid.String()), nil); err != nil {
			w.Fail("keyword-quoted", "with database %s: create database %q: %s", kid, kid.String(), err)
		}
	})
}

// Table ids.
func checkC18(r *Run) {
	ops := []cop{
		{oCreate, "maho/public/t", false, 0}, {oDrop, "maho/public/t", false, 0},
		{oCreate, "maho/public/u", false, 1}, {oDrop, "maho/public/u", false, 0},
		{oCreate, "a", false, 0}, {oDrop, "a", true, 0},
		{oCreate, "a/s", false, 0}, {oDrop, "a/s", true, 0}, {oCreate, "a/s/t", false, 2},
		{kind: oBegin}, {kind: oCommit}, {kind: oRollback},
	}
	no := int64(len(ops))
	pathsOf := []string{"maho/public/t", "maho/public/u", "a/s/t"}

	run := func(w *Worker, seq []int) {
		d := newCatDriver(w)
		if d == nil {
			return
		}
		ever := map[storage.TableId]string{} // committed, and which creation of which table
		now := map[string]storage.TableId{}  // committed
		inTx := map[string]storage.TableId{} // in the transaction
		count := 0
		look := func() map[string]storage.TableId {
			got := map[string]storage.TableId{}
			tx := d.tx
			if tx == nil {
				tx = engine.NewEngine(d.st).Begin()
				defer tx.Rollback()
			}
			for _, p := range pathsOf {
				if t, err := tx.OpenTable(ctx, tname(split(p)...)); err == nil {
					got[p] = t.TableId()
					if t.TableId() < 512 {
						d.fail("reserved", "%s has id %d", p, t.TableId())
					}
				}
			}
			for p, tid := range got {
				for p2, tid2 := range got {
					if p != p2 && tid == tid2 {
						d.fail("same", "%s and %s have id %d", p, p2, tid)
					}
				}
			}
			return got
		}
		for n, k := range seq {
			op := ops[k]
			before := now
			if d.tx != nil {
				before = inTx
			}
			open := d.tx != nil
			committed, cur := d.committed, d.cur
			d.op(op)
			if w.Failed() {
				return
			}
			if n < len(seq)-1 && fmt.Sprint(cur, committed, open) == fmt.Sprint(d.cur, d.committed, d.tx != nil) {
				continue // Nothing was changed: decided as a shorter history.
			}
			got := look()
			if op.kind == oRollback && open {
				before, cur = now, committed
			} else if !open {
				cur = committed
			}
			next := d.cur
			if d.tx == nil {
				next = d.committed
			}
			for p, tid := range before {
				_, was := cur[p]
				if _, is := next[p]; was && is && got[p] != tid {
					d.fail("changed", "%s: id was %d and is %d", p, tid, got[p])
				}
			}
			for p, tid := range got {
				if old, ok := before[p]; !ok || old != tid {
					count++
					if who, used := ever[tid]; used {
						d.fail("reused", "%s has id %d, which was the id of %s", p, tid, who)
					}
				}
			}
			if d.tx == nil {
				now = got
				for p, tid := range got {
					ever[tid] = p
				}
			}
			inTx = got
		}
		w.r.State(hash64(d.committed.String(), fmt.Sprint(now)))
	}
	histories := func(n int) {
		r.Cases(fmt.Sprintf("histories/%d", n), Power(no, n), func(w *Worker, i int64) {
			run(w, SeqDigits(i, no, n, nil))
		})
	}
	for n := 1; n <= Pick(r, 4, 5); n++ {
		histories(n)
	}
	// Longer histories of the operations which matter most.
	less := []int{0, 1, 2, 9, 10, 11}
	nl := int64(len(less))
	for n := 5; n <= Pick(r, 6, 8); n++ {
		r.Cases(fmt.Sprintf("long/%d", n), Power(nl, n), func(w *Worker, i int64) {
			ds := SeqDigits(i, nl, n, nil)
			for k := range ds {
				ds[k] = less[ds[k]]
			}
			run(w, ds)
		})
	}
	// Many tables, with drops, rollbacks, and failures between.
	r.Cases("many", 6, func(w *Worker, i int64) {
		st, err := newStore()
		if err != nil {
			w.Fail("init", "%s", err)
			return
		}
		eng := engine.NewEngine(st)
		td := tableDefs[i%3]
		ever := map[storage.TableId]bool{}
		for k := 0; k < Pick(r, 1000, 8000); k++ {
			tx := eng.Begin()
			tn := tname("maho", "public", fmt.Sprintf("t%d", k))
			if err := tx.CreateTable(ctx, tn, td.cols, td.types, td.key); err != nil {
				w.Fail("create", "table %d: %s", k, err)
				return
			}
			t, err := tx.OpenTable(ctx, tn)
			if err != nil {
				w.Fail("open", "table %d: %s", k, err)
				return
			}
			if int64(k)%7 == i {
				tx.Rollback()
				continue
			}
			if i > 2 && tx.CreateTable(ctx, tn, td.cols, td.types, td.key) == nil {
				w.Fail("twice", "table %d created twice", k)
			}
			if err := tx.Commit(ctx); err != nil {
				w.Fail("commit", "%s", err)
			}
			if ever[t.TableId()] || t.TableId() < 512 {
				w.Fail("reused", "table %d has id %d", k, t.TableId())
				return
			}
			ever[t.TableId()] = true
			if int64(k)%3 == i%2 {
				tx := eng.Begin()
				tx.DropTable(ctx, tn)
				tx.Commit(ctx)
			}
		}
	})

	// As if many tables had been created before: the next id is around a power of two.
	type seqRow struct {
		Sequence string `maho:"size=128,primary"`
		Current  int64
	}
	seqInfo := engine.MakeTypedInfo(storage.EngineTableId, types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: types.SEQUENCES}, seqRow{})
	r.Cases("next-id", 22*6, func(w *Worker, i int64) {
		st, err := newStore()
		if err != nil {
			w.Fail("init", "%s", err)
			return
		}
		eng := engine.NewEngine(st)
		td := tableDefs[0]
		ever := map[storage.TableId]string{}
		make1 := func(name string) bool {
			tx := eng.Begin()
			tn := tname("maho", "public", name)
			if err := tx.CreateTable(ctx, tn, td.cols, td.types, td.key); err != nil {
				w.Fail("create", "table %s: %s", name, err)
				tx.Rollback()
				return false
			}
			t, err := tx.OpenTable(ctx, tn)
			if err != nil {
				w.Fail("open", "table %s: %s", name, err)
				tx.Rollback()
				return false
			}
			if ever[t.TableId()] != "" || t.TableId() < 512 {
				w.Fail("reused", "table %s has id %d, which table %s has", name, t.TableId(), ever[t.TableId()])
				tx.Rollback()
				return false
			}
			ever[t.TableId()] = name
			tx.Commit(ctx)
			return true
		}
		for k := 0; k < 4; k++ {
			if !make1(fmt.Sprintf("before%d", k)) {
				return
			}
		}
		next := int64(1)<<(i/6+10) - 3 + i%6
		// A different way to keep the ids is not changed by this.
		set := func() (ok bool) {
			tx := st.Begin()
			defer func() {
				recover()
				defer func() { recover() }()
				tx.Rollback()
			}()
			sr := &seqRow{}
			n := 0
			if engine.TypedTableUpdate(ctx, tx, seqInfo, nil, nil, func(row types.Row) (any, error) {
				seqInfo.RowToStruct(row, sr)
				if sr.Current != 516 {
					return nil, nil
				}
				n++
				return &struct{ Current int64 }{next}, nil
			}) != nil || n != 1 {
				return false
			}
			return tx.Commit(ctx) == nil
		}
		if !set() {
			return
		}
		w.r.trans.Add(9)
		for k := 0; k < 9; k++ {
			if !make1(fmt.Sprintf("after%d", k)) {
				return
			}
		}
	})

	// So many tables, one after the other, that ids of 16 bits are used up.
	if !r.Thorough() {
		return
	}
	r.Cases("used-up", 1, func(w *Worker, i int64) {
		st, err := newStore()
		if err != nil {
			w.Fail("init", "%s", err)
			return
		}
		eng := engine.NewEngine(st)
		td := tableDefs[0]
		ever := map[storage.TableId]bool{}
		tn, stays := tname("maho", "public", "t"), tname("maho", "public", "s")
		first := eng.Begin()
		if err := first.CreateTable(ctx, stays, td.cols, td.types, td.key); err != nil {
			w.Fail("create", "%s", err)
			return
		}
		t, err := first.OpenTable(ctx, stays)
		if err != nil {
			w.Fail("open", "%s", err)
			return
		}
		ever[t.TableId()] = true
		first.Commit(ctx)
		tx := eng.Begin()
		for k := 0; k < 70000; k++ {
			if err := tx.CreateTable(ctx, tn, td.cols, td.types, td.key); err != nil {
				w.Fail("create", "table %d: %s", k, err)
				return
			}
			t, err := tx.OpenTable(ctx, tn)
			if err != nil {
				w.Fail("open", "table %d: %s", k, err)
				return
			}
			if ever[t.TableId()] || t.TableId() < 512 {
				w.Fail("reused", "table %d has id %d", k, t.TableId())
				return
			}
			ever[t.TableId()] = true
			if err := tx.Commit(ctx); err != nil {
				w.Fail("commit", "%s", err)
			}
			tx = eng.Begin()
			if err := tx.DropTable(ctx, tn); err != nil {
				w.Fail("drop", "table %d: %s", k, err)
				return
			}
		}
		tx.Rollback()
		w.r.trans.Add(70000)
	})
	histories(6)
}

// A new store.
func checkC16(r *Run) {
	ref := map[string][]string{"": {"system", "maho"}, "system": {"info"}, "maho": {"public"},
		"system/info": systemTables, "maho/public": nil}

	// whole checks all of an initialized store.
	whole := func(w *Worker, st storage.Store) {
		eng := engine.NewEngine(st)
		dbs, err := eng.ListDatabases()
		if err != nil || !sameIds(dbs, ref[""]) {
			w.Fail("databases", "got %v, %v", names(dbs), err)
		}
		tx := eng.Begin()
		open := map[string]engine.Table{}
		used := map[storage.TableId]bool{}
		for _, db := range []string{"system", "maho", "info", "x"} {
			sns, err := tx.ListSchemas(ctx, qid2(db))
			want, ok := ref[db]
			if ok != (err == nil) || err == nil && !sameIds(sns, want) {
				w.Fail("schemas", "%s: got %v, %v; want %v", db, names(sns), err, want)
			}
			for _, sn := range []string{"info", "public", "x"} {
				tns, err := tx.ListTables(ctx, sname(db, sn))
				want, ok := ref[db+"/"+sn]
				if ok != (err == nil) || err == nil && !sameIds(tns, want) {
					w.Fail("tables", "%s.%s: got %v, %v; want %v", db, sn, names(tns), err, want)
				}
				for _, tn := range append([]string{"x", "info"}, systemTables...) {
					t, err := tx.OpenTable(ctx, tname(db, sn, tn))
					if sys := db == "system" && sn == "info" && tn != "x" && tn != "info"; sys != (err == nil) {
						w.Fail("open", "%s.%s.%s: %v", db, sn, tn, err)
					} else if sys {
						open[tn] = t
						if tid := t.TableId(); tid < storage.EngineTableId || tid >= 512 || used[tid] {
							w.Fail("ids", "%s has id %d", tn, tid)
						}
						used[t.TableId()] = true
						if t.Name() != tname(db, sn, tn) || t.Type().Version != 1 {
							w.Fail("name", "%s: %s, version %d", tn, t.Name(), t.Type().Version)
						}
					}
				}
			}
		}
		tx.Rollback()
		if w.Failed() {
			return
		}

		// The stored rows, read with the listed definitions.
		stx := st.Begin()
		defer func() {
			if stx != nil {
				stx.Rollback()
			}
		}()
		rows := map[string][][]Value{}
		for tn, t := range open {
			tt := t.Type()
			tbl, err := stx.OpenTable(ctx, t.TableId(), t.Name(), tt.ColumnNames, tt.ColumnTypes, tt.Key)
			if err != nil {
				w.Fail("stored", "opening %s: %s", tn, err)
				return
			}
			got, o, txt := scanTable(tbl, nil, nil, nil, nil)
			if o != oOK {
				w.Fail("stored", "reading %s: %s", tn, txt)
				return
			}
			rows[tn] = got
		}
		str := func(v Value) string { s, _ := v.(S); return string(s) }
		has := func(tn string, want [][]string) {
			var got, exp []string
			for _, row := range rows[tn] {
				var ss []string
				for _, v := range row {
					if s, ok := v.(S); ok {
						ss = append(ss, string(s))
					}
				}
				got = append(got, strings.Join(ss, "/"))
			}
			for _, ss := range want {
				exp = append(exp, strings.Join(ss, "/"))
			}
			sort.Strings(got)
			sort.Strings(exp)
			if fmt.Sprint(got) != fmt.Sprint(exp) {
				w.Fail("rows", "%s: got rows for %v; want %v", tn, got, exp)
			}
		}
		sys, mh, info, pub := types.SYSTEM.String(), types.MAHO.String(), types.INFO.String(), types.PUBLIC.String()
		has("databases", [][]string{{sys}, {mh}})
		has("schemas", [][]string{{sys, info}, {mh, pub}})
		var all [][]string
		for _, tn := range systemTables {
			all = append(all, []string{sys, info, qid2(tn).String()})
		}
		has("tables", all)
		for _, row := range rows["tables"] {
			if len(row) != 5 {
				w.Fail("rows", "tables: %s", fmtRow(row))
				continue
			}
			for tn, t := range open {
				if qid2(tn).String() != str(row[2]) {
					continue
				}
				buf, _ := row[4].(B)
				tt, err := engine.DecodeTableType(buf)
				if err != nil || showType(tt) != showType(t.Type()) || row[3] != I(t.TableId()) {
					w.Fail("rows", "tables: %s: %v, id %v; listed as %s, id %d", tn, tt, row[3], showType(t.Type()), t.TableId())
				}
			}
		}
		if len(rows["sequences"]) != 1 {
			w.Fail("rows", "sequences: %s", fmtRows(rows["sequences"]))
		}
		stx.Rollback()
		stx = nil

		tx = eng.Begin()
		tn := tname("maho", "public", "t")
		if err := tx.CreateTable(ctx, tn, tableDefs[0].cols, tableDefs[0].types, tableDefs[0].key); err != nil {
			w.Fail("create", "%s", err)
		} else if t, err := tx.OpenTable(ctx, tn); err != nil || t.TableId() < 512 {
			w.Fail("first", "the first table: %v, %v", t, err)
		}
		tx.Rollback()
		w.r.State(hash64(dumpCatalog(st)))
	}

	newFault := func() *faultStore {
		st, _ := basic.NewStore("")
		return &faultStore{Store: st}
	}
	r.Cases("init", 1, func(w *Worker, i int64) {
		fs := newFault()
		if err := engine.Init(fs); err != nil {
			w.Fail("init", "%s", err)
			return
		}
		w.r.trans.Add(int64(fs.calls))
		if fs.begun != 1 || fs.committed != 1 || fs.rolledBack != 0 || fs.open != 0 || len(fs.misuse) > 0 {
			w.Fail("transaction", "%d transactions begun, %d committed, %d rolled back, %d cursors open; %v", fs.begun,
				fs.committed, fs.rolledBack, fs.open, fs.misuse)
			return
		}
		whole(w, fs.Store)
		w.r.Sample(strings.Split(dumpCatalog(fs.Store), "\n"))
		w.r.Sample(fs.log)
	})
	r.Cases("faults", 60*4, func(w *Worker, i int64) {
		fs := newFault()
		fs.at = int(i/4) + 1
		fs.persist = i&1 != 0
		fs.after = i&2 != 0
		err := engine.Init(fs)
		w.r.trans.Add(int64(fs.calls))
		if fs.failed == "" {
			if err != nil {
				w.Fail("init", "%s", err)
			}
			return
		}
		if !errors.Is(err, errStorage) {
			w.Fail("error", "call %d (%s) failed: Init gives %v", fs.at, fs.failed, err)
		}
		if fs.committed != 0 || fs.active != 0 || fs.open != 0 || len(fs.misuse) > 0 {
			w.Fail("transaction", "call %d (%s) failed: %d transactions committed, %d active, %d cursors open, %v", fs.at,
				fs.failed, fs.committed, fs.active, fs.open, fs.misuse)
			return
		}
		// Nothing is left: the store can be initialized.
		if err := engine.Init(fs.Store); err != nil {
			w.Fail("left", "call %d (%s) failed: then Init gives %s", fs.at, fs.failed, err)
			return
		}
		whole(w, fs.Store)
	})
	// A store with a table in the way is not changed.
	r.Cases("taken", 4, func(w *Worker, i int64) {
		st, _ := basic.NewStore("")
		tid := storage.EngineTableId + storage.TableId(i)
		def := mkdef(tid, "x", []types.ColumnType{types.Int64ColType}, ck(0, false))
		tx := st.Begin()
		if err := tx.CreateTable(ctx, tid, def.name, def.cols, def.types, def.key); err != nil {
			w.Fail("setup", "%s", err)
		}
		tx.Commit(ctx)
		fs := &faultStore{Store: st}
		var err error
		if o, txt := try(func() error { err = engine.Init(fs); return nil }); o != oOK {
			if fs.committed != 0 {
				w.Fail("taken", "with table %d: panic %s after a commit", tid, txt)
			}
			return // The store panics for a table which exists.
		}
		if err == nil || fs.committed != 0 || fs.active != 0 {
			w.Fail("taken", "with table %d: Init gives %v; %d committed, %d active", tid, err, fs.committed, fs.active)
			return
		}
		tx = st.Begin()
		if err := tx.DropTable(ctx, tid); err != nil {
			w.Fail("taken", "%s", err)
		}
		tx.Commit(ctx)
		if err := engine.Init(st); err != nil {
			w.Fail("taken", "without table %d: %s", tid, err)
			return
		}
		whole(w, st)
	})
}

func init() {
	checks["C16"] = checkC16
	checks["C17"] = checkC17
	checks["C18"] = checkC18
}

// checkMany checks catalogs with many names in one place: they are created and dropped in several
// orders, or all at once.
func checkMany(r *Run) {
	sizes := Pick(r, []int{16, 17, 65, 260}, []int{15, 16, 17, 33, 65, 130, 260})
	strides := Pick(r, []int{1, 7, -1}, []int{1, 3, 7, -1})
	ns, nd := int64(len(sizes)), int64(len(strides))
	r.Cases("many", ns*nd*nd*3*3*2, func(w *Worker, i int64) {
		g := Digits(i, ns, nd, nd, 3, 3, 2)
		n := sizes[g[0]]
		d := newCatDriver(w)
		if d == nil {
			return
		}
		order := func(g int) []int {
			var ks []int
			for k := 0; k < n; k++ {
				if s := strides[g]; s > 0 && n%s == 0 && s > 1 {
					ks = append(ks, (k*s)%n+k*s/n)
				} else {
					ks = append(ks, ((k*s)%n+n)%n)
				}
			}
			return ks
		}
		for _, op := range fullCatalog {
			d.op(op)
		}
		parent := []string{"", "a/", "a/s/"}[g[3]]
		path := func(k int) string {
			return parent + fmt.Sprintf("%c%d", 'n'+k%3, k)
		}
		mid := []string{path(0), path(n / 2), path(n - 1), path(1)}
		for k := range mid {
			mid[k] = mid[k][len(parent):]
		}
		some := [][]string{{"a", "ab"}, {"s", "sa"}, {"t", "ta"}}
		some[g[3]] = append(some[g[3]], mid...)
		check := func() { d.check(some[0], some[1], some[2]) }

		if g[5] == 1 {
			d.op(cop{kind: oBegin})
		}
		for j, k := range order(g[1]) {
			d.op(cop{oCreate, path(k), false, k % len(tableDefs)})
			if j == n/2 {
				check()
			}
		}
		check()
		d.op(cop{oCreate, path(n / 3), false, 0}) // exists
		switch g[4] {
		case 0:
			for j, k := range order(g[2]) {
				d.op(cop{oDrop, path(k), false, 0})
				if j == n/3 || j == n-2 {
					check()
				}
			}
		case 1:
			for j, k := range order(g[2]) {
				if j%4 != 1 {
					d.op(cop{oDrop, path(k), false, 0})
				}
			}
			check()
			for _, k := range order(g[1]) {
				d.op(cop{oCreate, path(k), false, 0})
			}
		case 2:
			if parent != "" {
				d.op(cop{oDrop, parent[:len(parent)-1], false, 0})
			}
		}
		check()
		if d.tx != nil {
			if g[4] == 0 {
				d.rollback()
			} else {
				d.commit()
			}
			check()
		}
		w.r.State(hash64(d.committed.String()))
	})
}
