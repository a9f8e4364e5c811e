// A store which counts the calls to it, checks how it is used, and can fail any call.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

var errStorage = errors.New("injected storage failure")

type faultStore struct {
	storage.Store
	at      int  // the call which fails; 0 is none
	persist bool // and every call after it
	after   bool // the call is done, and then fails

	calls      int
	failed     string // the call which failed
	begun      int
	committed  int
	rolledBack int
	open       int // cursors
	active     int // transactions
	misuse     []string
	log        []string
}

func (fs *faultStore) call(what string) bool {
	fs.calls++
	fs.log = append(fs.log, what)
	if fs.at != 0 && (fs.calls == fs.at || fs.persist && fs.calls > fs.at) {
		if fs.failed == "" {
			fs.failed = what
		}
		return true
	}
	return false
}

// do makes a call which can be done and then fail.
func (fs *faultStore) do(what string, fn func() error) error {
	if fs.call(what) {
		if fs.after {
			fn()
		}
		return errStorage
	}
	return fn()
}

func (fs *faultStore) Begin() storage.Transaction {
	fs.begun++
	fs.active++
	fs.log = append(fs.log, "Begin")
	return &faultTx{fs: fs, tx: fs.Store.Begin()}
}

type faultTx struct {
	fs   *faultStore
	tx   storage.Transaction
	done bool
}

func (ft *faultTx) use(what string) {
	if ft.done {
		ft.fs.misuse = append(ft.fs.misuse, what+" of a completed transaction")
	}
}

func (ft *faultTx) Store() storage.Store { return ft.fs }
func (ft *faultTx) NextStmt()            { ft.tx.NextStmt() }

func (ft *faultTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) (storage.Table, error) {

	ft.use("OpenTable")
	var tbl storage.Table
	err := ft.fs.do("OpenTable", func() error {
		var err error
		tbl, err = ft.tx.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
		return err
	})
	if err != nil {
		return nil, err
	}
	return &faultTable{tbl, ft}, nil
}

func (ft *faultTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName,
	colNames []types.Identifier, colTypes []types.ColumnType, primary []types.ColumnKey) error {

	ft.use("CreateTable")
	return ft.fs.do("CreateTable", func() error {
		return ft.tx.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	})
}

func (ft *faultTx) DropTable(ctx context.Context, tid storage.TableId) error {
	ft.use("DropTable")
	return ft.fs.do("DropTable", func() error { return ft.tx.DropTable(ctx, tid) })
}

// A commit or a rollback which fails ends the transaction and nothing is committed.
func (ft *faultTx) Commit(ctx context.Context) error {
	ft.use("Commit")
	fail := ft.fs.call("Commit")
	if ft.done {
		return errStorage
	}
	if fail {
		ft.end()
		ft.tx.Rollback()
		return errStorage
	}
	err := ft.tx.Commit(ctx)
	if err == nil {
		ft.fs.committed++
		ft.end()
	}
	return err
}

func (ft *faultTx) Rollback() error {
	fail := ft.fs.call("Rollback")
	if ft.done {
		// A rollback after a commit which failed does no harm.
		if ft.fs.failed != "Commit" {
			ft.use("Rollback")
		}
		return errStorage
	}
	err := ft.tx.Rollback()
	if err == nil {
		ft.fs.rolledBack++
		ft.end()
	}
	if fail {
		return errStorage
	}
	return err
}

func (ft *faultTx) end() {
	ft.done = true
	ft.fs.active--
}

type faultTable struct {
	storage.Table
	ft *faultTx
}

func (tbl *faultTable) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	tbl.ft.use("Rows")
	if tbl.ft.fs.call("Rows") {
		return nil, errStorage
	}
	rows, err := tbl.Table.Rows(ctx, cols, minRow, maxRow, pred)
	if err != nil {
		return nil, err
	}
	tbl.ft.fs.open++
	return &faultRows{rows: rows, ft: tbl.ft}, nil
}

func (tbl *faultTable) Insert(ctx context.Context, rows []types.Row) error {
	tbl.ft.use("Insert")
	return tbl.ft.fs.do("Insert", func() error { return tbl.Table.Insert(ctx, rows) })
}

type faultRows struct {
	rows   storage.Rows
	ft     *faultTx
	closed bool
}

func (rs *faultRows) Next(ctx context.Context) (types.Row, error) {
	rs.ft.use("Next")
	if rs.ft.fs.call("Next") {
		return nil, errStorage
	}
	return rs.rows.Next(ctx)
}

func (rs *faultRows) Current() (storage.RowRef, error) {
	rs.ft.use("Current")
	if rs.ft.fs.call("Current") {
		return nil, errStorage
	}
	rr, err := rs.rows.Current()
	if err != nil {
		return nil, err
	}
	return &faultRow{rr, rs.ft}, nil
}

func (rs *faultRows) Close(ctx context.Context) error {
	rs.ft.use("Close")
	rs.ft.fs.log = append(rs.ft.fs.log, "Close")
	err := rs.rows.Close(ctx)
	if !rs.closed {
		rs.closed = true
		rs.ft.fs.open--
	}
	return err
}

type faultRow struct {
	rr storage.RowRef
	ft *faultTx
}

func (rr *faultRow) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	rr.ft.use("Update")
	return rr.ft.fs.do("Update", func() error { return rr.rr.Update(ctx, cols, vals) })
}

func (rr *faultRow) Delete(ctx context.Context) error {
	rr.ft.use("Delete")
	return rr.ft.fs.do("Delete", func() error { return rr.rr.Delete(ctx) })
}

// newStore returns an initialized store.
func newStore() (storage.Store, error) {
	st, err := basic.NewStore("")
	if err != nil {
		return nil, err
	}
	return st, engine.Init(st)
}

var systemTables = []string{"sequences", "databases", "schemas", "tables"}

func tname(ss ...string) types.TableName {
	return types.TableName{Database: qid2(ss[0]), Schema: qid2(ss[1]), Table: qid2(ss[2])}
}

func sname(ss ...string) types.SchemaName {
	return types.SchemaName{Database: qid2(ss[0]), Schema: qid2(ss[1])}
}

// qid2 is the identifier for a name, which is a keyword only if it is a word the system knows.
func qid2(s string) types.Identifier { return types.ID(s, false) }

func showType(tt *engine.TableType) string {
	return fmt.Sprintf("v%d %v %v %v %v %d", tt.Version, tt.ColumnNames, tt.ColumnTypes, tt.Key, tt.Indexes,
		len(tt.ColumnDefaults))
}

// dumpCatalog is everything in the catalog, and in the tables it is kept in.
func dumpCatalog(st storage.Store) string {
	var sb strings.Builder
	eng := engine.NewEngine(st)
	dbs, err := eng.ListDatabases()
	fmt.Fprintf(&sb, "databases %v %v\n", dbs, err)
	tx := eng.Begin()
	var defs []engine.Table
	for _, db := range dbs {
		schemas, err := tx.ListSchemas(ctx, db)
		fmt.Fprintf(&sb, "%s: schemas %v %v\n", db, schemas, err)
		for _, sn := range schemas {
			sn := types.SchemaName{Database: db, Schema: sn}
			tables, err := tx.ListTables(ctx, sn)
			fmt.Fprintf(&sb, "%s: tables %v %v\n", sn, tables, err)
			for _, tbl := range tables {
				tn := types.TableName{Database: db, Schema: sn.Schema, Table: tbl}
				t, err := tx.OpenTable(ctx, tn)
				if err != nil {
					fmt.Fprintf(&sb, "%s: %s\n", tn, err)
					continue
				}
				fmt.Fprintf(&sb, "%s %s: %d %s\n", tn, t.Name(), t.TableId(), showType(t.Type()))
				if db == types.SYSTEM {
					defs = append(defs, t)
				}
			}
		}
	}
	tx.Rollback()

	stx := st.Begin()
	for _, def := range defs {
		tt := def.Type()
		tbl, err := stx.OpenTable(ctx, def.TableId(), def.Name(), tt.ColumnNames, tt.ColumnTypes, tt.Key)
		if err != nil {
			fmt.Fprintf(&sb, "%s: %s\n", def.Name(), err)
			continue
		}
		rows, err := tbl.Rows(ctx, nil, nil, nil, nil)
		if err != nil {
			fmt.Fprintf(&sb, "%s: %s\n", def.Name(), err)
			continue
		}
		vals, err := readAll(rows)
		rows.Close(ctx)
		fmt.Fprintf(&sb, "%s: %s %v\n", def.Name(), fmtRows(vals), err)
	}
	stx.Rollback()
	return sb.String()
}
