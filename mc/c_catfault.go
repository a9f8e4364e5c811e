// C34: storage failures.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

type faultRowSt struct {
	Key  int64  `maho:"primary"`
	Name string `maho:"size=10"`
}

var faultInfo = engine.MakeTypedInfo(600, types.TableName{id("d"), id("s"), id("typed")}, faultRowSt{})

// A catalogCall is an operation on an engine; within its own transaction if it is on the engine.
type catalogCall struct {
	name string
	own  bool
	fn   func(eng engine.Engine, tx engine.Transaction, stx storage.Transaction) error
}

func catalogCalls() []catalogCall {
	var calls []catalogCall
	own := func(name string, fn func(eng engine.Engine) error) {
		calls = append(calls, catalogCall{name, true,
			func(eng engine.Engine, tx engine.Transaction, stx storage.Transaction) error { return fn(eng) }})
	}
	in := func(name string, fn func(tx engine.Transaction) error) {
		calls = append(calls, catalogCall{name, false,
			func(eng engine.Engine, tx engine.Transaction, stx storage.Transaction) error { return fn(tx) }})
	}
	typed := func(name string, fn func(stx storage.Transaction) error) {
		calls = append(calls, catalogCall{name, false,
			func(eng engine.Engine, tx engine.Transaction, stx storage.Transaction) error { return fn(stx) }})
	}

	for _, db := range []string{"a", "ab", "c", "maho"} {
		dn := qid2(db)
		own("create database "+db, func(eng engine.Engine) error { return eng.CreateDatabase(dn, nil) })
		own("drop database "+db, func(eng engine.Engine) error { return eng.DropDatabase(dn, false) })
		own("drop database if exists "+db, func(eng engine.Engine) error { return eng.DropDatabase(dn, true) })
		in("list schemas "+db, func(tx engine.Transaction) error { _, err := tx.ListSchemas(ctx, dn); return err })
		for _, sn := range []string{"s", "sa", "x"} {
			if db == "maho" && sn != "x" {
				continue
			}
			path, sn := db+"."+sn, sname(db, sn)
			in("create schema "+path, func(tx engine.Transaction) error { return tx.CreateSchema(ctx, sn) })
			in("drop schema "+path, func(tx engine.Transaction) error { return tx.DropSchema(ctx, sn, false) })
			in("drop schema if exists "+path, func(tx engine.Transaction) error { return tx.DropSchema(ctx, sn, true) })
			in("list tables "+path, func(tx engine.Transaction) error { _, err := tx.ListTables(ctx, sn); return err })
			for k, t := range []string{"t", "ta", "x"} {
				tn := types.TableName{Database: sn.Database, Schema: sn.Schema, Table: qid2(t)}
				td := tableDefs[k]
				path := path + "." + t
				in("create table "+path, func(tx engine.Transaction) error {
					return tx.CreateTable(ctx, tn, td.cols, td.types, td.key)
				})
				in("drop table "+path, func(tx engine.Transaction) error { return tx.DropTable(ctx, tn) })
				in("open table "+path, func(tx engine.Transaction) error { _, err := tx.OpenTable(ctx, tn); return err })
			}
		}
	}
	own("list databases", func(eng engine.Engine) error { _, err := eng.ListDatabases(); return err })
	in("several", func(tx engine.Transaction) error {
		if err := tx.CreateSchema(ctx, sname("maho", "m")); err != nil {
			return err
		} else if err := tx.CreateTable(ctx, tname("maho", "m", "t"), tableDefs[0].cols, tableDefs[0].types, nil); err != nil {
			return err
		} else if err := tx.DropSchema(ctx, sname("a", "s"), false); err != nil {
			return err
		}
		_, err := tx.ListTables(ctx, sname("maho", "m"))
		return err
	})

	key := func(k int64) interface{} { return &faultRowSt{Key: k} }
	typed("typed insert", func(stx storage.Transaction) error {
		return engine.TypedTableInsert(ctx, stx, faultInfo, &faultRowSt{7, "x"}, &faultRowSt{8, "y"})
	})
	typed("typed insert duplicate", func(stx storage.Transaction) error {
		return engine.TypedTableInsert(ctx, stx, faultInfo, &faultRowSt{9, "x"}, &faultRowSt{1, "y"})
	})
	typed("typed lookup", func(stx storage.Transaction) error {
		return engine.TypedTableLookup(ctx, stx, faultInfo, key(2))
	})
	typed("typed lookup missing", func(stx storage.Transaction) error {
		return engine.TypedTableLookup(ctx, stx, faultInfo, key(20))
	})
	typed("typed select", func(stx storage.Transaction) error {
		return engine.TypedTableSelect(ctx, stx, faultInfo, key(1), nil, func(row types.Row) error { return nil })
	})
	typed("typed update", func(stx storage.Transaction) error {
		return engine.TypedTableUpdate(ctx, stx, faultInfo, nil, key(2), func(row types.Row) (interface{}, error) {
			return &struct{ Name string }{"new"}, nil
		})
	})
	typed("typed delete", func(stx storage.Transaction) error {
		return engine.TypedTableDelete(ctx, stx, faultInfo, nil, nil, func(row types.Row) (bool, error) {
			return row[0] != I(2), nil
		})
	})
	typed("create typed table", func(stx storage.Transaction) error {
		info := engine.MakeTypedInfo(601, types.TableName{id("d"), id("s"), id("typed2")}, faultRowSt{})
		return engine.CreateTypedTable(ctx, stx, info)
	})
	return calls
}

// fullStore is a store with databases, schemas, tables, and a typed table.
func fullStore(w *Worker) storage.Store {
	d := newCatDriver(w)
	if d == nil {
		return nil
	}
	for _, op := range fullCatalog {
		d.op(op)
	}
	stx := d.st.Begin()
	err := engine.CreateTypedTable(ctx, stx, faultInfo)
	if err == nil {
		err = engine.TypedTableInsert(ctx, stx, faultInfo, &faultRowSt{1, "a"}, &faultRowSt{2, "b"}, &faultRowSt{3, "c"})
	}
	if err != nil {
		w.Fail("setup", "%s", err)
	}
	stx.Commit(ctx)
	if w.Failed() {
		return nil
	}
	return d.st
}

func dumpTyped(st storage.Store) string {
	stx := st.Begin()
	defer stx.Rollback()
	s := ""
	engine.TypedTableSelect(ctx, stx, faultInfo, nil, nil, func(row types.Row) error {
		s += fmtRow(row)
		return nil
	})
	return s
}

func init() {
	checks["C34"] = func(r *Run) {
		r.Assume("A commit or a rollback which fails ends the transaction without committing it.",
			"Closing a cursor does not fail.")
		calls := catalogCalls()
		const most = 60
		modes := int64(4)
		counts := make([]atomic.Int64, len(calls))
		r.Cases("operations", int64(len(calls))*(most+1)*modes, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(calls)), most+1, modes)
			call, at := calls[ds[0]], ds[1]
			if n := counts[ds[0]].Load(); at == 0 && ds[2] > 0 || n > 0 && at > int(n) {
				return // The call would not be made.
			}
			st := fullStore(w)
			if st == nil {
				return
			}
			before := dumpCatalog(st) + dumpTyped(st)
			fs := &faultStore{Store: st, at: at, persist: ds[2]&1 != 0, after: ds[2]&2 != 0}
			eng := engine.NewEngine(fs)

			// The transaction is begun by the caller unless it is the operation's own.
			var tx engine.Transaction
			var stx storage.Transaction
			if !call.own {
				if len(call.name) > 5 && call.name[:5] == "typed" || call.name == "create typed table" {
					stx = fs.Begin()
				} else {
					tx = eng.Begin()
				}
			}
			var err error
			o, txt := try(func() error { err = call.fn(eng, tx, stx); return nil })
			w.r.trans.Add(int64(fs.calls))
			what := fmt.Sprintf("%s: failing call %d (%s, mode %d): ", call.name, at, fs.failed, ds[2])
			if o != oOK {
				w.Fail("panic:"+call.name, "%s%s", what, txt)
				return
			}
			if fs.open != 0 {
				w.Fail("cursor", "%s%d cursors are open; %v", what, fs.open, fs.log)
			}
			if len(fs.misuse) > 0 {
				w.Fail("misuse", "%s%v; %v", what, fs.misuse, fs.log)
			}
			if fs.failed != "" && err == nil {
				w.Fail("success:"+fs.failed, "%sreported as success; %v", what, fs.log)
			} else if fs.failed != "" && fs.failed != "Rollback" && !errors.Is(err, errStorage) {
				w.Fail("wrong:"+fs.failed, "%sreported as %v; %v", what, err, fs.log)
			}
			if fs.failed == "" && at > 0 && at <= fs.calls {
				w.Fail("harness", "%sthe failure was not injected", what)
			}

			if call.own {
				if fs.begun != 1 || fs.active != 0 {
					w.Fail("transaction", "%s%d transactions begun, %d active; %v", what, fs.begun, fs.active, fs.log)
					return
				}
				if err != nil && fs.committed > 0 {
					w.Fail("committed", "%scommitted; %v", what, fs.log)
				}
				if n := fs.rolledBack; err != nil && fs.failed != "Commit" && n != 1 {
					w.Fail("rollback", "%srolled back %d times; %v", what, n, fs.log)
				} else if err == nil && (fs.committed != 1 || n != 0) {
					w.Fail("commit", "%scommitted %d times, rolled back %d times; %v", what, fs.committed, n, fs.log)
				}
			} else {
				if fs.committed > 0 || fs.rolledBack > 0 || fs.begun != 1 {
					w.Fail("ended", "%sthe caller's transaction was ended; %v", what, fs.log)
					return
				}
				fs.at = 0
				if tx != nil {
					err2 := tx.Rollback()
					if err2 != nil {
						w.Fail("unusable", "%srollback: %s", what, err2)
					}
				} else if err2 := stx.Rollback(); err2 != nil {
					w.Fail("unusable", "%srollback: %s", what, err2)
				}
				if fs.active != 0 {
					w.Fail("locked", "%safter a rollback the transaction is active", what)
					return
				}
			}
			if fs.active == 0 && (err != nil || !call.own) {
				if after := dumpCatalog(st) + dumpTyped(st); after != before {
					w.Fail("effect", "%shas an effect\nfrom %s\nto %s", what, before, after)
				}
			}
			w.r.State(hash64(call.name, fs.failed, fmt.Sprint(err == nil)))
			if at == 0 {
				counts[ds[0]].Store(int64(fs.calls))
				w.r.Sample(map[string]any{"operation": call.name, "calls": fs.log})
				if fs.calls > most {
					w.Fail("bound", "%s makes %d calls", call.name, fs.calls)
				}
			}
		})

		faultStatements(r)

		// Initializing a store is one transaction, which is all or nothing.
		r.Cases("init", most*modes, func(w *Worker, i int64) {
			st, _ := basic.NewStore("")
			fs := &faultStore{Store: st, at: int(i/modes) + 1, persist: i&1 != 0, after: i&2 != 0}
			var err error
			if o, txt := try(func() error { err = engine.Init(fs); return nil }); o != oOK {
				w.Fail("panic:init", "init: failing call %d (%s): %s", fs.at, fs.failed, txt)
				return
			}
			w.r.trans.Add(int64(fs.calls))
			what := fmt.Sprintf("init: failing call %d (%s, mode %d): ", fs.at, fs.failed, i%modes)
			if fs.open != 0 || len(fs.misuse) > 0 {
				w.Fail("cursor", "%s%d cursors are open, %v; %v", what, fs.open, fs.misuse, fs.log)
			}
			if fs.failed != "" && err == nil {
				w.Fail("success:init", "%sreported as success; %v", what, fs.log)
			} else if fs.failed != "" && !errors.Is(err, errStorage) {
				w.Fail("wrong:init", "%sreported as %v; %v", what, err, fs.log)
			}
			if fs.begun != 1 || fs.active != 0 {
				w.Fail("transaction", "%s%d transactions begun, %d active; %v", what, fs.begun, fs.active, fs.log)
				return
			}
			if fs.failed != "" && (fs.committed != 0 || fs.failed != "Commit" && fs.rolledBack != 1) {
				w.Fail("rollback", "%scommitted %d times, rolled back %d times; %v", what, fs.committed, fs.rolledBack, fs.log)
			}
			if fs.failed != "" {
				if o, txt := try(func() error { err = engine.Init(st); return nil }); o != oOK || err != nil {
					w.Fail("effect", "%sthen the store can not be initialized: %v %s", what, err, txt)
				}
			}
		})

		// The transaction can be committed after a failure which had no effect, and ends once.
		r.Cases("ending", 2*2*3, func(w *Worker, i int64) {
			ds := Digits(i, 2, 2, 3)
			st, err := newStore()
			if err != nil {
				w.Fail("init", "%s", err)
				return
			}
			fs := &faultStore{Store: st}
			eng := engine.NewEngine(fs)
			tx := eng.Begin()
			if ds[2] > 0 {
				if err := tx.CreateSchema(ctx, sname("maho", "s")); err != nil {
					w.Fail("setup", "%s", err)
				}
			}
			fs.calls, fs.at = 0, 1
			if ds[0] == 0 {
				err = tx.Commit(context.Background())
			} else {
				err = tx.Rollback()
			}
			if !errors.Is(err, errStorage) {
				w.Fail("ending", "a failed commit or rollback gives %v", err)
			}
			fs.at = 0
			if ds[1] == 0 {
				err = tx.Rollback()
			} else {
				err = tx.Commit(ctx)
			}
			if err == nil {
				w.Fail("ending", "the transaction ended twice; %v", fs.log)
			}
			if fs.active != 0 || fs.committed != 0 {
				w.Fail("ending", "%d active, %d committed; %v", fs.active, fs.committed, fs.log)
				return
			}
			eng2 := engine.NewEngine(st)
			if dbs, err := eng2.ListDatabases(); err != nil || len(dbs) != 2 {
				w.Fail("ending", "databases: %v, %v", names(dbs), err)
			}
		})
	}
}

var faultTexts = []string{
	"create table x (k int primary key, v text)", "create table if not exists x (k int)", "create table t (k int)",
	"create table if not exists t (k int)", "create table b.s.t (k int)", "create table x (k int, primary key (z))",
	"drop table t", "drop table x", "drop table t, ta", "drop table ta, x", "drop table if exists x", "drop table if exists t",
	"drop table if exists x, t, ta", "drop table if exists t, x, t", "drop table a.sa.t, ab.s.t, t",
	"create schema n", "create schema s", "create schema b.n", "drop schema s", "drop schema n", "drop schema if exists n",
	"drop schema if exists ab.s", "create database n", "create database a", "drop database a", "drop database n",
	"drop database if exists n", "drop database if exists ab",
	"create index i on a.sa.t (a)", "create index if not exists i on a.sa.t (b, a)", "create index i on x (a)",
	"create index i on a.sa.t (z)", "drop index i on t", "drop index if exists i on t", "insert into t values (1)",
}

// faultStatements is statements through a session, on their own and in a transaction, each of whose storage
// calls fails.
func faultStatements(r *Run) {
	const most = 40
	var stmts []sql.Stmt
	for _, text := range faultTexts {
		stmt, err := parser.NewParser(strings.NewReader(text), "").Parse()
		if err != nil {
			stmt = nil
		}
		stmts = append(stmts, stmt)
	}
	type result struct {
		ran   bool
		err   error
		after string
		calls int64
	}
	var mutex sync.Mutex
	refs := make([]result, len(stmts)*2)
	run := func(w *Worker, k int, inTx bool, at, mode int) (*faultStore, storage.Store, error, bool) {
		st := fullStore(w)
		if st == nil {
			return nil, nil, nil, false
		}
		fs := &faultStore{Store: st, persist: mode&1 != 0, after: mode&2 != 0}
		ses := evaluate.NewSession(engine.NewEngine(fs), id("a"), id("s"))
		// Parsed again: the session changes the statement.
		stmt, _ := parser.NewParser(strings.NewReader(faultTexts[k]), "").Parse()
		var err error
		o, txt := try(func() error {
			if inTx {
				if err := ses.Evaluate(ctx, &sql.Begin{}); err != nil {
					return err
				}
			}
			if at > 0 {
				fs.at = fs.calls + at
			}
			err = ses.Evaluate(ctx, stmt)
			fs.at = 0
			if inTx && err == nil {
				return ses.Evaluate(ctx, &sql.Commit{})
			} else if inTx {
				return ses.Evaluate(ctx, &sql.Rollback{})
			}
			return nil
		})
		if o != oOK {
			w.Fail("statement-ended", "%s: failing call %d (%s, mode %d): %s; %v", faultTexts[k], at, fs.failed, mode, txt, fs.log)
			return nil, nil, nil, false
		}
		return fs, st, err, true
	}
	r.Cases("statements", int64(len(stmts))*2*(most+1)*4, func(w *Worker, i int64) {
		ds := Digits(i, int64(len(stmts))*2, most+1, 4)
		k, inTx, at, mode := int(ds[0]/2), ds[0]%2 == 1, int(ds[1]), ds[2]
		if stmts[k] == nil {
			w.Fail("harness", "%s is not parsed", faultTexts[k])
			return
		}
		mutex.Lock()
		ref := refs[ds[0]]
		mutex.Unlock()
		if at == 0 && mode > 0 || ref.ran && at > int(ref.calls) {
			return
		}
		if !ref.ran {
			fs, st, err, ok := run(w, k, inTx, 0, 0)
			if !ok {
				return
			}
			if fs.calls > most {
				w.Fail("bound", "%s makes %d calls", faultTexts[k], fs.calls)
			}
			ref = result{true, err, dumpCatalog(st) + dumpTyped(st), int64(fs.calls)}
			mutex.Lock()
			refs[ds[0]] = ref
			mutex.Unlock()
		}
		if at == 0 || at > int(ref.calls) {
			return
		}
		st0 := fullStore(w)
		if st0 == nil {
			return
		}
		before := dumpCatalog(st0) + dumpTyped(st0)
		fs, st, err, ok := run(w, k, inTx, at, mode)
		if !ok {
			return
		}
		w.r.trans.Add(int64(fs.calls))
		what := fmt.Sprintf("%s: failing call %d (%s, mode %d, in transaction %v): ", faultTexts[k], at, fs.failed, mode, inTx)
		if fs.open != 0 || len(fs.misuse) > 0 {
			w.Fail("cursor", "%s%d cursors are open, %v; %v", what, fs.open, fs.misuse, fs.log)
		}
		if fs.active != 0 {
			w.Fail("locked", "%sa transaction is active; %v", what, fs.log)
			return
		}
		after := dumpCatalog(st) + dumpTyped(st)
		if err != nil {
			if after != before {
				w.Fail("effect", "%shas an effect\nfrom %s\nto %s", what, before, after)
			}
			if ref.err == nil && !errors.Is(err, errStorage) && strings.Contains(err.Error(), "not found") {
				w.Fail("wrong", "%sreported as %v; %v", what, err, fs.log)
			}
		} else if ref.err != nil {
			w.Fail("success", "%sreported as success, and without the failure as %v; %v", what, ref.err, fs.log)
		} else if after != ref.after {
			w.Fail("success", "%sreported as success\nwith %s\nwant %s", what, after, ref.after)
		}
		w.r.State(hash64("statement", faultTexts[k], fs.failed, fmt.Sprint(err == nil)))
	})
}
