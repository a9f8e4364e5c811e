package main

import (
	"context"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// Note that nothing here uses package fmt: it uses a pool, which would order the threads for the
// race detector.

type level struct {
	name   string
	kinds  []kind
	mkenv  func() (any, func() string)
	groups []groupConf
}

// groupConf is programs of a shape, and how to explore them.
type groupConf struct {
	shape    string // how many transactions there are in each thread
	bound    int    // preemptions
	deeper   int    // the bound for thorough, if it is another one
	stmts    bool
	race     bool
	thorough bool // just for thorough
}

var (
	ctx    = context.Background()
	levels []level
)

func must(err error) {
	if err != nil {
		panic("unexpected error: " + err.Error())
	}
}

// Storage.

type storeEnv struct {
	st storage.Store
}

var (
	stCols  = []types.Identifier{types.ID("k", false), types.ID("v", false)}
	stTypes = []types.ColumnType{types.Int64ColType, types.Int64ColType}
	stKey   = []types.ColumnKey{types.MakeColumnKey(0, false)}
)

var stNames = map[storage.TableId]types.TableName{16: mkName(16), 17: mkName(17), 18: mkName(18),
	19: mkName(19)}

func stName(tid storage.TableId) types.TableName { return stNames[tid] }

func mkName(tid storage.TableId) types.TableName {
	return types.TableName{Database: types.ID("db", false), Schema: types.ID("sc", false),
		Table: types.ID("t"+strconv.Itoa(int(tid)), false)}
}

func stOpen(tx storage.Transaction, tid storage.TableId) storage.Table {
	tbl, err := tx.OpenTable(ctx, tid, stName(tid), stCols, stTypes, stKey)
	must(err)
	return tbl
}

func i64(v types.Value) int64 {
	i, ok := v.(types.Int64Value)
	if !ok {
		return -999999
	}
	return int64(i)
}

func stScan(tbl storage.Table) string {
	rows, err := tbl.Rows(ctx, nil, nil, nil, nil)
	must(err)
	var sb strings.Builder
	for {
		row, err := rows.Next(ctx)
		if err == io.EOF {
			break
		}
		must(err)
		sb.WriteString(" " + strconv.FormatInt(i64(row[0]), 10) + "=" +
			strconv.FormatInt(i64(row[1]), 10))
	}
	must(rows.Close(ctx))
	return sb.String()
}

// stChange changes the row with key k; delete if fn is nil. Returns the old value.
func stChange(tbl storage.Table, k int64, fn func(v int64) int64) string {
	row := types.Row{types.Int64Value(k), nil}
	rows, err := tbl.Rows(ctx, nil, row[:1], row[:1], nil)
	must(err)
	defer rows.Close(ctx)
	r, err := rows.Next(ctx)
	if err == io.EOF {
		return "none"
	}
	must(err)
	v := i64(r[1])
	ref, err := rows.Current()
	must(err)
	if fn == nil {
		must(ref.Delete(ctx))
	} else {
		must(ref.Update(ctx, []types.ColumnNum{1}, []types.Value{types.Int64Value(fn(v))}))
	}
	return strconv.FormatInt(v, 10)
}

func stGet(tbl storage.Table, k int64) int64 {
	row := types.Row{types.Int64Value(k)}
	rows, err := tbl.Rows(ctx, nil, row, row, nil)
	must(err)
	defer rows.Close(ctx)
	r, err := rows.Next(ctx)
	if err == io.EOF {
		return 0
	}
	must(err)
	return i64(r[1])
}

func stKind(name string, once bool, fn func(rec *recorder, tx storage.Transaction)) kind {
	return kind{name, once, func(env any) unit {
		e := env.(*storeEnv)
		return func(rec *recorder) {
			fn(rec, e.st.Begin())
		}
	}}
}

func plus(d int64) func(int64) int64 { return func(v int64) int64 { return v + d } }

func stRow(k, v int64) []types.Row {
	return []types.Row{{types.Int64Value(k), types.Int64Value(v)}}
}

func init() {
	kinds := []kind{
		stKind("v1 += 1", false, func(rec *recorder, tx storage.Transaction) {
			rec.add("was", stChange(stOpen(tx, 16), 1, plus(1)))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("v1 += 1; rollback", false, func(rec *recorder, tx storage.Transaction) {
			tbl := stOpen(tx, 16)
			rec.add("was", stChange(tbl, 1, plus(100)), "now", stScan(tbl))
			rec.add(errs(tx.Rollback()))
		}),
		stKind("scan; scan", false, func(rec *recorder, tx storage.Transaction) {
			rec.add(stScan(stOpen(tx, 16)))
			rec.add(stScan(stOpen(tx, 16)))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("v2 = v1 + v2", false, func(rec *recorder, tx storage.Transaction) {
			tbl := stOpen(tx, 16)
			v1 := stGet(tbl, 1)
			rec.add("was", stChange(tbl, 2, plus(v1)))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("v1 = v1 + v2", false, func(rec *recorder, tx storage.Transaction) {
			tbl := stOpen(tx, 16)
			v2 := stGet(tbl, 2)
			rec.add("was", stChange(tbl, 1, plus(v2)))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("insert 3", false, func(rec *recorder, tx storage.Transaction) {
			err := stOpen(tx, 16).Insert(ctx, stRow(3, 30))
			rec.add(errs(err))
			if err != nil {
				rec.add(errs(tx.Rollback()))
			} else {
				rec.add(errs(tx.Commit(ctx)))
			}
		}),
		stKind("insert 4, 1", false, func(rec *recorder, tx storage.Transaction) {
			tbl := stOpen(tx, 16)
			rec.add(errs(tbl.Insert(ctx, append(stRow(4, 40), stRow(1, 11)...))))
			rec.add(stScan(tbl))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("delete 1", false, func(rec *recorder, tx storage.Transaction) {
			rec.add("was", stChange(stOpen(tx, 16), 1, nil))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("scan; rollback; rollback; commit", false,
			func(rec *recorder, tx storage.Transaction) {
				rec.add(stScan(stOpen(tx, 16)))
				rec.add(errs(tx.Rollback()), errs(tx.Rollback()), errs(tx.Commit(ctx)))
			}),
		stKind("commit; commit; rollback", false, func(rec *recorder, tx storage.Transaction) {
			rec.add(errs(tx.Commit(ctx)), errs(tx.Commit(ctx)), errs(tx.Rollback()))
		}),
		stKind("create t17, insert", true, func(rec *recorder, tx storage.Transaction) {
			must(tx.CreateTable(ctx, 17, stName(17), stCols, stTypes, stKey))
			must(stOpen(tx, 17).Insert(ctx, stRow(1, 1)))
			rec.add(errs(tx.Commit(ctx)))
		}),
		stKind("create t18, rollback", false, func(rec *recorder, tx storage.Transaction) {
			must(tx.CreateTable(ctx, 18, stName(18), stCols, stTypes, stKey))
			must(stOpen(tx, 18).Insert(ctx, stRow(1, 1)))
			rec.add(errs(tx.Rollback()))
		}),
		stKind("drop t19", true, func(rec *recorder, tx storage.Transaction) {
			must(tx.DropTable(ctx, 19))
			rec.add(errs(tx.Commit(ctx)))
		}),
	}
	levels = append(levels, level{"storage", kinds, func() (any, func() string) {
		st, err := basic.NewStore("")
		must(err)
		tx := st.Begin()
		for _, tid := range []storage.TableId{16, 19} {
			must(tx.CreateTable(ctx, tid, stName(tid), stCols, stTypes, stKey))
			must(stOpen(tx, tid).Insert(ctx, append(stRow(1, 10), stRow(2, 20)...)))
		}
		must(tx.Commit(ctx))
		return &storeEnv{st}, func() string {
			tx := st.Begin()
			defer tx.Rollback()
			s := stScan(stOpen(tx, 16))
			for _, tid := range []storage.TableId{17, 18, 19} {
				s += "; t" + strconv.Itoa(int(tid)) + ":" + func() (s string) {
					defer func() {
						if p := recover(); p != nil {
							s = "none"
						}
					}()
					return stScan(stOpen(tx, tid))
				}()
			}
			return s
		}
	}, []groupConf{
		{"1+1", 3, 4, false, true, false},
		{"1+1", 1, 0, true, true, false},
		{"2+1", 2, 3, false, false, false},
		{"1+1+1", 1, 2, false, false, false},
		{"1+1+1", 1, 0, false, true, true},
		{"2+2", 1, 0, false, false, true},
		{"2+1", 1, 0, true, false, true},
		{"1+1+1", 1, 0, true, false, true},
	}})
}

// Engine.

type engEnv struct {
	eng engine.Engine
}

func idents(ids []types.Identifier, err error) string {
	if err != nil {
		return "error"
	}
	var ss []string
	for _, id := range ids {
		ss = append(ss, id.String())
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func engList(eng engine.Engine) string {
	dbs, err := eng.ListDatabases()
	if err != nil {
		return "error"
	}
	s := ""
	tx := eng.Begin()
	defer tx.Rollback()
	for _, db := range dbs {
		if db == types.SYSTEM {
			continue
		}
		s += db.String() + "("
		scs, err := tx.ListSchemas(ctx, db)
		if err != nil {
			s += "error"
		}
		for _, sc := range scs {
			s += sc.String() + "("
			tbls, err := tx.ListTables(ctx, types.SchemaName{Database: db, Schema: sc})
			if err != nil {
				s += "error"
			}
			for _, t := range tbls {
				s += t.String() + openedAs(tx, types.TableName{Database: db, Schema: sc, Table: t}) + " "
			}
			s += ")"
		}
		s += ") "
	}
	return s
}

// openedAs is the number and the columns of a table.
func openedAs(tx engine.Transaction, tn types.TableName) string {
	tbl, err := tx.OpenTable(ctx, tn)
	if err != nil {
		return ":none"
	}
	s := ":" + strconv.Itoa(int(tbl.TableId()))
	for _, c := range tbl.Type().ColumnNames {
		s += ":" + c.String()
	}
	return s
}

func engKind(name string, fn func(rec *recorder, eng engine.Engine)) kind {
	return kind{name, false, func(env any) unit {
		e := env.(*engEnv)
		return func(rec *recorder) { fn(rec, e.eng) }
	}}
}

var (
	pub   = types.SchemaName{Database: types.MAHO, Schema: types.PUBLIC}
	t1    = tname("t1")
	t2    = tname("t2")
	told  = tname("told")
	sc1   = types.SchemaName{Database: types.MAHO, Schema: types.ID("s1", false)}
	db1   = types.ID("d1", false)
	cols1 = []types.Identifier{types.ID("c1", false)}
	cols2 = []types.Identifier{types.ID("c2", false), types.ID("c3", false)}
	icol  = types.Int64ColType
)

func tname(s string) types.TableName {
	return types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: types.ID(s, false)}
}

// end commits if err is nil, and rolls back if not.
func end(rec *recorder, tx engine.Transaction, err error) {
	rec.add(errs(err))
	if err != nil {
		rec.add("rollback", errs(tx.Rollback()))
	} else {
		rec.add("commit", errs(tx.Commit(ctx)))
	}
}

func newEngine() engine.Engine {
	st, err := basic.NewStore("")
	must(err)
	must(engine.Init(st))
	eng := engine.NewEngine(st)
	tx := eng.Begin()
	must(tx.CreateTable(ctx, told, cols1, []types.ColumnType{icol}, nil))
	must(tx.Commit(ctx))
	return eng
}

func init() {
	kinds := []kind{
		engKind("create table t1", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			end(rec, tx, tx.CreateTable(ctx, t1, cols1, []types.ColumnType{icol}, nil))
		}),
		engKind("create table t2", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			err := tx.CreateTable(ctx, t2, cols2, []types.ColumnType{icol, icol}, nil)
			rec.add(openedAs(tx, t2))
			end(rec, tx, err)
		}),
		engKind("create table t1; rollback", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			err := tx.CreateTable(ctx, t1, cols2, []types.ColumnType{icol, icol}, nil)
			rec.add(openedAs(tx, t1), errs(err), errs(tx.Rollback()))
		}),
		engKind("drop table told", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			end(rec, tx, tx.DropTable(ctx, told))
		}),
		engKind("list tables; open told", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			rec.add(idents(tx.ListTables(ctx, pub)))
			rec.add(openedAs(tx, told))
			rec.add(openedAs(tx, t1))
			rec.add(errs(tx.Commit(ctx)), errs(tx.Commit(ctx)), errs(tx.Rollback()))
		}),
		engKind("create schema s1", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			end(rec, tx, tx.CreateSchema(ctx, sc1))
		}),
		engKind("drop schema s1", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			end(rec, tx, tx.DropSchema(ctx, sc1, false))
		}),
		engKind("create schema d1.s1", func(rec *recorder, eng engine.Engine) {
			tx := eng.Begin()
			end(rec, tx, tx.CreateSchema(ctx, types.SchemaName{Database: db1, Schema: sc1.Schema}))
		}),
		engKind("create database d1", func(rec *recorder, eng engine.Engine) {
			rec.add(errs(eng.CreateDatabase(db1, nil)))
		}),
		engKind("drop database d1", func(rec *recorder, eng engine.Engine) {
			rec.add(errs(eng.DropDatabase(db1, false)))
		}),
		engKind("list databases", func(rec *recorder, eng engine.Engine) {
			rec.add(idents(eng.ListDatabases()))
		}),
	}
	levels = append(levels, level{"engine", kinds, func() (any, func() string) {
		eng := newEngine()
		return &engEnv{eng}, func() string { return engList(eng) }
	}, []groupConf{
		{"1+1", 1, 3, false, false, false},
		{"1+1", 1, 0, false, true, false},
		{"1+1", 1, 0, true, false, false},
		{"2+1", 1, 0, false, false, false},
		{"1+1+1", 0, 1, false, false, false},
		{"1+1", 1, 0, true, true, true},
	}})
}

// Sessions.

type sesEnv struct {
	eng engine.Engine
}

// sesKind is statements on a session of its own.
func sesKind(texts ...string) kind {
	return kind{strings.Join(texts, " "), false, func(env any) unit {
		e := env.(*sesEnv)
		return func(rec *recorder) {
			ses := evaluate.NewSession(e.eng, types.MAHO, types.PUBLIC)
			for _, text := range texts {
				stmt, err := parser.NewParser(strings.NewReader(text), "x").Parse()
				must(err)
				rec.add(errs(ses.Evaluate(ctx, stmt)))
			}
		}
	}}
}

func init() {
	kinds := []kind{
		sesKind("CREATE TABLE t1 (c1 INT PRIMARY KEY);"),
		sesKind("BEGIN;", "CREATE TABLE t1 (c2 INT, c3 TEXT);", "CREATE TABLE told (c1 INT);",
			"COMMIT;"),
		sesKind("BEGIN;", "DROP TABLE told;", "CREATE TABLE t2 (c1 INT);", "ROLLBACK;"),
		sesKind("DROP TABLE told;"),
		sesKind("SET SCHEMA TO 's1';", "CREATE TABLE t1 (c4 INT);"),
		sesKind("CREATE SCHEMA s1;"),
		sesKind("CREATE DATABASE d1;"),
		sesKind("BEGIN;", "BEGIN;", "DROP DATABASE d1;", "COMMIT;", "COMMIT;", "DROP DATABASE d1;"),
	}
	levels = append(levels, level{"session", kinds, func() (any, func() string) {
		eng := newEngine()
		return &sesEnv{eng}, func() string { return engList(eng) }
	}, []groupConf{
		{"1+1", 1, 3, false, false, false},
		{"1+1", 1, 0, false, true, false},
		{"1+1", 1, 0, true, false, false},
		{"2+1", 1, 0, false, false, false},
		{"1+1+1", 0, 1, false, false, false},
		{"1+1", 1, 0, true, true, true},
	}})
}
