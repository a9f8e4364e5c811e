// C20 and C21: sessions.
package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// A recEngine records the calls made to an engine, and can fail any of them. Without an engine, every
// call succeeds, and transactions do not wait for each other.
type recEngine struct {
	eng     engine.Engine
	at      int // the call which fails; 0 is none
	persist bool

	calls    int
	failed   string
	noCommit bool // a commit failed
	begun    int
	active   int
	last     *recTx
	log      []string // transactions, and changes
	opened   []types.TableName
	commits  int
	rolls    int
	misuse   string
	missing  func(tn types.TableName) bool // without an engine
	nextOpen int
}

var errEngine = errors.New("injected engine failure")

type recTx struct {
	re   *recEngine
	tx   engine.Transaction
	num  int
	done bool
}

type recTable struct{ tn types.TableName }

func (rt recTable) Name() types.TableName { return rt.tn }
func (rt recTable) Type() *engine.TableType {
	return &engine.TableType{Version: 1, ColumnNames: ids("c", "c2"), ColumnTypes: []types.ColumnType{types.Int64ColType, types.Int64ColType}}
}
func (rt recTable) TableId() storage.TableId { return 1000 }

func (re *recEngine) fails(what string) bool {
	re.calls++
	if re.at != 0 && (re.calls == re.at || re.persist && re.calls > re.at) {
		if re.failed == "" {
			re.failed = what
		}
		return true
	}
	return false
}

func (re *recEngine) record(format string, args ...any) {
	re.log = append(re.log, fmt.Sprintf(format, args...))
}

func (re *recEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	re.record("create database %s", dn)
	if re.fails("CreateDatabase") {
		return errEngine
	} else if re.eng == nil {
		return nil
	}
	return re.eng.CreateDatabase(dn, opts)
}

func (re *recEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	re.record("drop database %s", dn)
	if re.fails("DropDatabase") {
		return errEngine
	} else if re.eng == nil {
		return nil
	}
	return re.eng.DropDatabase(dn, ifExists)
}

func (re *recEngine) ListDatabases() ([]types.Identifier, error) {
	if re.fails("ListDatabases") {
		return nil, errEngine
	} else if re.eng == nil {
		return nil, nil
	}
	return re.eng.ListDatabases()
}

func (re *recEngine) Begin() engine.Transaction {
	re.begun++
	re.active++
	re.record("begin %d", re.begun)
	re.last = &recTx{re: re, num: re.begun}
	if re.eng != nil {
		re.last.tx = re.eng.Begin()
	}
	return re.last
}

func (rt *recTx) use(what string) bool {
	if rt.done {
		rt.re.misuse = what + " of a completed transaction"
	}
	return rt.re.fails(what)
}

func (rt *recTx) end() {
	if !rt.done {
		rt.done = true
		rt.re.active--
	}
}

// A commit which fails ends the transaction; nothing is committed.
func (rt *recTx) Commit(ctx context.Context) error {
	rt.re.record("%d: commit", rt.num)
	fail := rt.use("Commit")
	rt.re.commits++
	if rt.done {
		return errEngine
	}
	rt.end()
	if fail {
		rt.re.noCommit = true
		if rt.tx != nil {
			rt.tx.Rollback()
		}
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.Commit(ctx)
}

func (rt *recTx) Rollback() error {
	if rt.done && rt.re.failed == "Commit" {
		return errEngine // Does no harm.
	}
	rt.re.record("%d: rollback", rt.num)
	fail := rt.use("Rollback")
	rt.re.rolls++
	if rt.done {
		return errEngine
	}
	rt.end()
	var err error
	if rt.tx != nil {
		err = rt.tx.Rollback()
	}
	if fail {
		return errEngine
	}
	return err
}

func (rt *recTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	rt.re.record("%d: create schema %s", rt.num, show3(sn.Database, sn.Schema))
	if rt.use("CreateSchema") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.CreateSchema(ctx, sn)
}

func (rt *recTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	rt.re.record("%d: drop schema %s", rt.num, show3(sn.Database, sn.Schema))
	if rt.use("DropSchema") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.DropSchema(ctx, sn, ifExists)
}

func (rt *recTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	if rt.use("ListSchemas") {
		return nil, errEngine
	} else if rt.tx == nil {
		return nil, nil
	}
	return rt.tx.ListSchemas(ctx, dn)
}

func (rt *recTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	rt.re.opened = append(rt.re.opened, tn)
	if rt.use("OpenTable") {
		return nil, errEngine
	} else if rt.tx == nil {
		if rt.re.missing != nil && rt.re.missing(tn) {
			return nil, errors.New("not found")
		}
		return recTable{tn}, nil
	}
	return rt.tx.OpenTable(ctx, tn)
}

func (rt *recTx) CreateTable(ctx context.Context, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	rt.re.record("%d: create table %s", rt.num, show3(tn.Database, tn.Schema, tn.Table))
	if rt.use("CreateTable") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.CreateTable(ctx, tn, colNames, colTypes, primary)
}

func (rt *recTx) DropTable(ctx context.Context, tn types.TableName) error {
	rt.re.record("%d: drop table %s", rt.num, show3(tn.Database, tn.Schema, tn.Table))
	if rt.use("DropTable") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.DropTable(ctx, tn)
}

func (rt *recTx) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier, error) {
	if rt.use("ListTables") {
		return nil, errEngine
	} else if rt.tx == nil {
		return nil, nil
	}
	return rt.tx.ListTables(ctx, sn)
}

func (rt *recTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	rt.re.record("%d: create index %s %s", rt.num, show3(tn.Database, tn.Schema, tn.Table), in)
	if rt.use("CreateIndex") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.CreateIndex(ctx, tn, in, key)
}

func (rt *recTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	rt.re.record("%d: drop index %s %s", rt.num, show3(tn.Database, tn.Schema, tn.Table), in)
	if rt.use("DropIndex") {
		return errEngine
	} else if rt.tx == nil {
		return nil
	}
	return rt.tx.DropIndex(ctx, tn, in)
}

// show3 is a name, with each part quoted so that it can be told apart.
func show3(parts ...types.Identifier) string {
	var ss []string
	for _, p := range parts {
		if p == 0 {
			ss = append(ss, "-")
		} else {
			ss = append(ss, fmt.Sprintf("%q", p.String()))
		}
	}
	return strings.Join(ss, ".")
}

func parseOne(text string) sql.Stmt {
	if text == "" {
		return nil
	}
	if strings.HasPrefix(text, "copy") {
		text += ";\n\\.\n"
	}
	ps := parseAll(text, 1)
	if len(ps) == 0 || ps[0].err != nil || ps[0].stmt == nil {
		panic(fmt.Sprintf("%s: %v", text, ps))
	}
	return ps[0].stmt
}

type sessKind uint8

const (
	sBegin sessKind = iota
	sCommit
	sRollback
	sDatabase // outside of transactions only
	sNothing  // nothing to do with transactions
	sFail     // nothing to do with transactions, and fails
	sChange   // changes the catalog
	sBad      // always fails
)

// A sessStmt is a statement and what it does to the catalog, if it works.
type sessStmt struct {
	text string
	kind sessKind
	ops  []cop
	soft bool // each of the operations which can not be done is skipped
}

var sessStmts = []sessStmt{
	{"begin", sBegin, nil, false},
	{"commit", sCommit, nil, false},
	{"rollback", sRollback, nil, false},
	{"create database a", sDatabase, []cop{{oCreate, "a", false, 0}}, false},
	{"drop database a", sDatabase, []cop{{oDrop, "a", false, 0}}, false},
	{"drop database if exists ab", sDatabase, []cop{{oDrop, "ab", true, 0}}, false},
	{"create database c with x = 1", sBad, nil, false},
	{"create schema a.s", sChange, []cop{{oCreate, "a/s", false, 0}}, false},
	{"drop schema a.s", sChange, []cop{{oDrop, "a/s", false, 0}}, false},
	{"drop schema if exists a.sa", sChange, []cop{{oDrop, "a/sa", true, 0}}, false},
	{"create table a.s.t (c bigint)", sChange, []cop{{oCreate, "a/s/t", false, 0}}, false},
	{"create table if not exists a.s.ta (c bigint)", sChange, []cop{{oCreate, "a/s/ta", false, 0}}, true},
	{"create table a.s.tb (c bigint, primary key (d))", sBad, nil, false},
	{"drop table a.s.t", sChange, []cop{{oDrop, "a/s/t", false, 0}}, false},
	{"drop table if exists a.s.ta, a.s.t", sChange, []cop{{oDrop, "a/s/ta", true, 0}, {oDrop, "a/s/t", true, 0}}, true},
	{"drop table a.s.t, a.s.ta", sChange, []cop{{oDrop, "a/s/t", false, 0}, {oDrop, "a/s/ta", false, 0}}, false},
	{"insert into a.s.t values (1)", sBad, nil, false},
	{"select * from a.s.t", sBad, nil, false},
	{"set database = 'a'", sNothing, nil, false},
	{"set nothing = 'a'", sFail, nil, false},
	{"", sNothing, nil, false},
}

// A sessDriver runs statements in a session and in a model of one.
type sessDriver struct {
	w         *Worker
	re        *recEngine
	ses       *evaluate.Session
	committed cat
	cur       cat
	open      bool
	hist      []string
	unsure    bool // what is in the transaction is not known
	canceled  bool // the context of the next statement is canceled
}

func newSessDriver(w *Worker) *sessDriver {
	st, err := newStore()
	if err != nil {
		w.Fail("init", "%s", err)
		return nil
	}
	d := &sessDriver{w: w, re: &recEngine{eng: engine.NewEngine(st)}, committed: cat{"maho": 0, "maho/public": 0}}
	d.ses = evaluate.NewSession(d.re, types.MAHO, types.PUBLIC)
	return d
}

func (d *sessDriver) fail(key, format string, args ...any) {
	d.w.Fail(key, "after %q: %s; calls %q", d.hist, fmt.Sprintf(format, args...), d.re.log)
}

// effect is the catalog after a statement, and if it works.
func (ss sessStmt) effect(c cat) (cat, bool) {
	if ss.kind == sBad || ss.kind == sFail {
		return c, false
	}
	n := c
	for _, op := range ss.ops {
		next, ok := n.apply(op)
		if !ok {
			if _, exists := n[op.path]; ss.soft && (exists || op.kind == oDrop) {
				continue
			}
			return c, false
		}
		n = next
	}
	return n, true
}

// stmt runs a statement; it is false if the history can not continue.
func (d *sessDriver) stmt(ss sessStmt) bool {
	d.hist = append(d.hist, ss.text)
	re := d.re
	begun, commits, rolls, nlog := re.begun, re.commits, re.rolls, len(re.log)
	failed := re.failed
	re.failed, re.noCommit = "", false
	var err error
	st := parseOne(ss.text)
	ctx := ctx
	if d.canceled {
		d.hist[len(d.hist)-1] += " -- canceled"
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	o, txt := try(func() error { err = d.ses.Evaluate(ctx, st); return nil })
	if o != oOK {
		d.fail("panic", "%s", txt)
		return false
	}
	d.w.r.trans.Add(1)
	fault := re.failed
	if fault == "" {
		re.failed = failed
	}
	canceled := d.canceled
	d.canceled = false
	if canceled && err != nil {
		fault = "canceled" // That is up to the statement.
		if ss.kind == sNothing {
			return true
		}
	}
	begun, commits, rolls = re.begun-begun, re.commits-commits, re.rolls-rolls
	changed := len(re.log) > nlog

	calls := func(b, c, r int) bool {
		if begun != b || commits != c || rolls != r {
			d.fail("calls", "%d begins, %d commits, and %d rollbacks; want %d, %d, and %d", begun, commits, rolls, b, c, r)
			return false
		}
		return true
	}
	result := func(ok bool) bool {
		if (err == nil) != ok {
			d.fail("result", "got %v; want ok to be %v (fault %q)", err, ok, fault)
			return false
		}
		return true
	}
	good := true
	switch ss.kind {
	case sBegin:
		good = result(!d.open)
		if !d.open {
			good = good && calls(1, 0, 0)
			d.open, d.cur = true, d.committed
		} else {
			good = good && calls(0, 0, 0)
		}
	case sCommit, sRollback:
		good = result(d.open && fault == "")
		if !d.open {
			good = good && calls(0, 0, 0)
			break
		}
		d.open = false
		if ss.kind == sCommit {
			good = good && calls(0, 1, 0)
			if fault == "" {
				d.committed = d.cur
			}
		} else {
			good = good && calls(0, 0, 1)
		}
		if d.unsure && ss.kind == sCommit && fault == "" {
			return false
		}
		d.unsure = false
	case sDatabase:
		n, ok := ss.effect(d.committed)
		good = calls(0, 0, 0) && result(ok && !d.open && fault == "")
		if d.open && changed {
			d.fail("database", "the engine was called within a transaction")
			good = false
		} else if !d.open && fault == "" {
			d.committed = n
		}
	case sNothing, sFail:
		good = calls(0, 0, 0) && result(ss.kind == sNothing)
		if changed {
			d.fail("nothing", "the engine was called")
			good = false
		}
	default:
		if d.open {
			n, ok := ss.effect(d.cur)
			good = calls(0, 0, 0)
			if fault == "" {
				good = good && (d.unsure || result(ok))
				d.cur = n
			} else {
				d.unsure = true // Part of it might have been done.
				good = good && d.faulty(fault, ss, err, ok)
			}
			break
		}
		if ss.text[:6] == "create" && ss.kind == sBad && strings.Contains(ss.text, "database") {
			good = calls(0, 0, 0) && result(false)
			break
		}
		n, ok := ss.effect(d.committed)
		if begun > 1 || begun == 0 && changed {
			d.fail("calls", "%d transactions were begun", begun)
			good = false
		} else if begun == 0 {
			good = result(false) && (ss.kind == sBad || fault == "canceled")
		} else if fault == "" {
			good = result(ok)
			if ok {
				good = good && calls(1, 1, 0)
				d.committed = n
			} else {
				good = good && calls(1, 0, 1)
			}
		} else {
			good = d.faulty(fault, ss, err, ok)
			if err == nil {
				good = good && calls(1, 1, 0)
				d.committed = n
			} else if commits == 1 && fault != "canceled" {
				// The commit failed; a rollback after that is allowed, but not needed.
				good = good && re.noCommit
				if !re.noCommit {
					d.fail("committed", "a statement which failed with %s was committed", err)
				}
			} else {
				good = good && calls(1, 0, 1)
			}
		}
	}
	if re.misuse != "" {
		d.fail("misuse", "%s", re.misuse)
		return false
	}
	if active := re.active; active != map[bool]int{false: 0, true: 1}[d.open] {
		d.fail("active", "%d transactions are active; the session is in a transaction: %v", active, d.open)
		return false
	}
	return good && !d.w.Failed()
}

// faulty checks a statement in which an engine call failed. It must fail, unless the call was only to
// find out if a table which does not exist exists.
func (d *sessDriver) faulty(fault string, ss sessStmt, err error, ok bool) bool {
	if err != nil {
		return true
	}
	if fault == "OpenTable" {
		if len(ss.ops) > 0 && ss.ops[0].kind == oCreate && ok {
			return true // It did not exist, and was created.
		}
	}
	d.fail("fault", "%s failed but the statement did not", fault)
	return false
}

// check compares the catalog with the model.
func (d *sessDriver) check() {
	re := d.re
	re.at = 0
	cd := &catDriver{w: d.w, eng: re.eng, committed: d.committed, hist: d.hist}
	if d.open {
		if !d.unsure {
			cd.tx, cd.cur = re.last.tx, d.cur
			cd.check([]string{"a", "ab", "maho"}, []string{"s", "sa", "public"}, []string{"t", "ta"})
			cd.tx = nil
		}
		if err := re.last.tx.Rollback(); err != nil {
			d.fail("rollback", "%s", err)
		}
	}
	cd.check([]string{"a", "ab", "maho"}, []string{"s", "sa", "public"}, []string{"t", "ta"})
	d.w.r.State(hash64(d.committed.String(), fmt.Sprint(d.open, d.cur)))
}

var sessStarts = []struct {
	name string
	ops  []int
}{
	{"new", nil},
	{"schema", []int{3, 7}},
	{"tables", []int{3, 7, 10, 11}},
	{"changed", []int{3, 7, 10, 0, 13, 11}},
}

func init() {
	checks["C20"] = checkC20
	checks["C21"] = checkC21
}

func checkC20(r *Run) {
	r.Assume("A commit or a rollback which fails ends the transaction, and nothing is committed.",
		"CREATE TABLE may take a failure to open the table as its not existing, if it does not exist.")
	ns := int64(len(sessStmts))
	for _, start := range sessStarts {
		for n := 1; n <= Pick(r, 3, 4); n++ {
			r.Cases(fmt.Sprintf("%s/%d", start.name, n), Power(ns, n), func(w *Worker, i int64) {
				d := newSessDriver(w)
				if d == nil {
					return
				}
				for _, k := range start.ops {
					d.stmt(sessStmts[k])
				}
				for _, k := range SeqDigits(i, ns, n, nil) {
					if !d.stmt(sessStmts[k]) {
						return
					}
				}
				if i == 47 {
					w.r.Sample(map[string]any{"statements": d.hist, "calls": d.re.log})
				}
				d.check()
			})
		}
	}

	// Every engine call of every short history fails, once or from then on.
	const most = 10
	for _, start := range sessStarts {
		for n := 1; n <= Pick(r, 2, 3); n++ {
			r.Cases(fmt.Sprintf("fault/%s/%d", start.name, n), Power(ns, n)*most*2, func(w *Worker, i int64) {
				at, persist := int(i%(most*2))/2+1, i%2 == 1
				d := newSessDriver(w)
				if d == nil {
					return
				}
				for _, k := range start.ops {
					d.stmt(sessStmts[k])
				}
				d.re.calls, d.re.at, d.re.persist = 0, at, persist
				ks := SeqDigits(i/(most*2), ns, n, nil)
				for _, k := range ks {
					if !d.stmt(sessStmts[k]) {
						return
					}
				}
				if d.re.calls < at {
					return // The same as without a failure.
				}
				if n == 1 && at == most {
					w.Fail("bound", "%q makes %d calls", d.hist, d.re.calls)
				}
				d.re.at = 0
				// The session goes on.
				if d.open {
					d.stmt(sessStmts[2])
				}
				for _, k := range []int{0, 7, 2, 3} {
					if !d.stmt(sessStmts[k]) {
						return
					}
				}
				d.check()
			})
		}
	}

	// The context of one of the statements is canceled, which may make it fail.
	for _, start := range sessStarts {
		for n := 1; n <= Pick(r, 2, 3); n++ {
			r.Cases(fmt.Sprintf("canceled/%s/%d", start.name, n), Power(ns, n)*int64(n), func(w *Worker, i int64) {
				d := newSessDriver(w)
				if d == nil {
					return
				}
				for _, k := range start.ops {
					d.stmt(sessStmts[k])
				}
				for x, k := range SeqDigits(i/int64(n), ns, n, nil) {
					d.canceled = x == int(i)%n
					if !d.stmt(sessStmts[k]) {
						return
					}
				}
				if d.open {
					d.stmt(sessStmts[2])
				}
				for _, k := range []int{0, 7, 2, 3} {
					if !d.stmt(sessStmts[k]) {
						return
					}
				}
				d.check()
			})
		}
	}

	// Two sessions, with transactions which do not wait: each uses its own.
	stmts := []string{"begin", "commit", "rollback", "create schema a.s%d", "drop table a.s%d.t", "create database d%d",
		"select 1", "set database = 'x'"}
	na := int64(len(stmts)) * 2
	for n := 1; n <= Pick(r, 4, 5); n++ {
		r.Cases(fmt.Sprintf("sessions/%d", n), Power(na, n), func(w *Worker, i int64) {
			re := &recEngine{}
			sess := []*evaluate.Session{evaluate.NewSession(re, id("a"), id("s")), evaluate.NewSession(re, id("a"), id("s"))}
			var open [2]int
			var want, hist []string
			tx := 0
			for _, k := range SeqDigits(i, na, n, nil) {
				s, k := k%2, k/2
				text := stmts[k]
				if strings.Contains(text, "%") {
					text = fmt.Sprintf(text, s)
				}
				hist = append(hist, fmt.Sprintf("%d: %s", s, text))
				err := sess[s].Evaluate(ctx, parseOne(text))
				w.r.trans.Add(1)
				ok := true
				switch {
				case k == 0 && open[s] == 0:
					tx++
					open[s] = tx
					want = append(want, fmt.Sprintf("begin %d", tx))
				case (k == 1 || k == 2) && open[s] > 0:
					want = append(want, fmt.Sprintf("%d: %s", open[s], text))
					open[s] = 0
				case k == 5 && open[s] == 0:
					want = append(want, text)
				case k < 3 || k == 5:
					ok = false
				case k < 5 || k == 6:
					t := open[s]
					if t == 0 {
						tx++
						t = tx
						want = append(want, fmt.Sprintf("begin %d", t))
					}
					if k == 3 {
						want = append(want, fmt.Sprintf(`%d: create schema "a"."s%d"`, t, s))
					} else if k == 4 {
						want = append(want, fmt.Sprintf(`%d: drop table "a"."s%d"."t"`, t, s))
					} else {
						ok = false
					}
					if open[s] == 0 {
						want = append(want, fmt.Sprintf("%d: %s", t, map[bool]string{true: "commit", false: "rollback"}[ok]))
					}
				}
				if (err == nil) != ok {
					w.Fail("sessions", "%q: got %v", hist, err)
				}
			}
			// A statement which is not supported need not begin a transaction.
			if got := re.log; !slices.Equal(noEmpty(got), noEmpty(want)) || re.misuse != "" {
				w.Fail("sessions", "%q: got %q; want %q; %s", hist, got, want, re.misuse)
			}
			w.r.State(hash64(fmt.Sprint(open), fmt.Sprint(want)))
		})
	}
}

// noEmpty removes transactions in which nothing was done, and the numbers of the rest are in order.
func noEmpty(log []string) []string {
	num := map[string]string{}
	used := map[string]bool{}
	for _, s := range log {
		if t, rest, ok := strings.Cut(s, ": "); ok && rest != "rollback" {
			used[t] = true
		}
	}
	var ss []string
	for _, s := range log {
		if t, ok := strings.CutPrefix(s, "begin "); ok {
			if !used[t] {
				continue
			}
			num[t] = fmt.Sprint(len(num) + 1)
			s = "begin " + num[t]
		} else if t, rest, ok := strings.Cut(s, ": "); ok {
			if !used[t] {
				continue
			}
			s = num[t] + ": " + rest
		}
		ss = append(ss, s)
	}
	return ss
}

// Statements which name tables (%T) and schemas (%S), and whether they can be evaluated.
var nameStmts = []struct {
	text string
	eval bool
}{
	{"create table %T (c bigint, d bigint primary key)", true},
	{"create table if not exists %T (c bigint)", true},
	{"create index i on %T (c)", true},
	{"create unique index if not exists i on %T (c, c2 desc)", true},
	{"drop index i on %T", true},
	{"drop index if exists i on %T", true},
	{"drop table %T", true},
	{"drop table if exists %T, %T, %T cascade", true},
	{"drop table %T, %T", true},
	{"create schema %S", true},
	{"drop schema %S", true},
	{"drop schema if exists %S", true},
	{"alter table %T drop constraint k", false},
	{"alter table %T alter c drop default, alter column d drop not null", false},
	{"copy %T (c) from stdin", false},
	{"delete from %T", false},
	{"delete from %T where c = 1", false},
	{"insert into %T values (1)", false},
	{"insert into %T (c, d) values (1, 2), (3, 4)", false},
	{"update %T set c = 1, d = c where d > 2", false},
}

// Names as they are written, and ones which can follow them in the same statement.
var nameParts = [][3]string{{"d", "s", "t"}, {`"Q d"`, `"S"`, `"T.u"`}, {"text", "columns", "count"}, {"maho", "public", "x"}}

// setStmts change the defaults of a session: what the database and schema become.
var setStmts = []struct {
	text       string
	db, schema string
	fail       bool
}{
	{"set database = 'x'", "x", "", false},
	{"set database to 'yY'", "yy", "", false},
	{"set schema = 'zZ'", "", "zz", false},
	{"set schema to 'Columns'", "", "columns", false},
	{"use 'w'", "w", "", false},
	{"use 'text'", "text", "", false},
	{"set nothing = 'v'", "", "", true},
	{"create schema v.v", "", "", false},
}

func checkC21(r *Run) {
	r.Assume("The statements are those which change data or definitions; the names are those of the table or schema they are about.")
	ns, np, no := int64(len(nameStmts)), int64(len(nameParts)), int64(len(setStmts))*2
	for n := 0; n <= Pick(r, 2, 3); n++ {
		r.Cases(fmt.Sprintf("names/%d", n), Power(no, n)*ns*np*3, func(w *Worker, i int64) {
			ds := Digits(i, Power(no, n), ns, np, 3)
			ns, form := nameStmts[ds[1]], ds[3]
			re := &recEngine{missing: func(tn types.TableName) bool { return strings.HasPrefix(ns.text, "create table") }}
			defs := [2][2]string{{"d0", "s0"}, {"d1", `"S1"`}}
			sess := []*evaluate.Session{evaluate.NewSession(re, id("d0"), id("s0")), evaluate.NewSession(re, id("d1"), qid("S1"))}
			var hist []string
			for _, k := range SeqDigits(int64(ds[0]), no, n, nil) {
				s, set := k%2, setStmts[k/2]
				hist = append(hist, fmt.Sprintf("%d: %s", s, set.text))
				if err := sess[s].Evaluate(ctx, parseOne(set.text)); (err != nil) != set.fail {
					w.Fail("set", "%q: %v", hist, err)
				}
				w.r.trans.Add(1)
				if set.db != "" {
					defs[s][0] = set.db
				}
				if set.schema != "" {
					defs[s][1] = set.schema
				}
			}
			w.r.State(hash64(fmt.Sprint(defs)))

			for s, ses := range sess {
				// The text as it is, and with the names as they should be.
				text, full := ns.text, ns.text
				var names []string
				for k := 0; strings.Contains(text, "%"); k++ {
					parts := nameParts[(ds[2]+k)%len(nameParts)]
					form := (form + k) % 3
					if strings.Contains(text, "%S") {
						form := form % 2
						text = strings.Replace(text, "%S", strings.Join(parts[1-form:2], "."), 1)
						d := defs[s][0]
						if form == 1 {
							d = parts[0]
						}
						full = strings.Replace(full, "%S", d+"."+parts[1], 1)
						names = append(names, show3(spelled(d), spelled(parts[1])))
						continue
					}
					text = strings.Replace(text, "%T", strings.Join(parts[2-form:], "."), 1)
					p := [3]string{defs[s][0], defs[s][1], parts[2]}
					copy(p[2-form:], parts[2-form:])
					full = strings.Replace(full, "%T", strings.Join(p[:], "."), 1)
					names = append(names, show3(spelled(p[0]), spelled(p[1]), spelled(p[2])))
				}
				what := fmt.Sprintf("%q: %d: %s", hist, s, text)
				st := parseOne(text)
				st.Resolve(ses)
				got, want := dumpAST(st, false), dumpAST(parseOne(full), false)
				if got != want {
					w.Fail("resolved", "%s:\n got %s\nwant %s", what, got, want)
				}
				st.Resolve(ses)
				if got := dumpAST(st, false); got != want {
					w.Fail("again", "%s: resolved again:\n got %s\nwant %s", what, got, want)
				}
				if !ns.eval {
					continue
				}

				re.log, re.opened = nil, nil
				err := ses.Evaluate(ctx, parseOne(text))
				w.r.trans.Add(1)
				if err != nil {
					w.Fail("error", "%s: %s", what, err)
				}
				var used []string
				for _, s := range re.log {
					if k := strings.Index(s, ` "`); k > 0 {
						used = append(used, s[k+1:])
					}
				}
				for k := range used {
					if strings.HasSuffix(used[k], " i") {
						used[k] = used[k][:len(used[k])-2] // The name of an index.
					}
				}
				if !slices.Equal(used, names) {
					w.Fail("used", "%s: got %q; want %q", what, used, names)
				}
				for _, tn := range re.opened {
					if !slices.Contains(names, show3(tn.Database, tn.Schema, tn.Table)) {
						w.Fail("opened", "%s: opened %s; want %q", what, tn, names)
					}
				}
			}
			if i%10007 == 7 {
				w.r.Sample(hist)
			}
		})
	}

	// Statements of a session, some of which fail: only SET and USE change what names are.
	steps := []struct{ text, db, schema string }{
		{"begin", "", ""}, {"commit", "", ""}, {"rollback", "", ""}, {"create schema s1", "", ""}, {"create table t (c int)", "", ""},
		{"create database d1", "", ""}, {"drop database d1", "", ""}, {"set other = 'x'", "", ""}, {"", "", ""}, {"drop schema info", "", ""},
		{"set database = 'd1'", "d1", ""}, {"use 'maho'", "maho", ""}, {"set schema = 's1'", "", "s1"}, {"set schema to 'public'", "", "public"},
		{"use 'system'", "system", ""}, {"set schema = 'info'", "", "info"}, {"show database", "", ""}, {"drop table t, maho.public.t", "", ""},
	}
	starts := [][2]types.Identifier{{id("maho"), id("public")}, {id("d0"), id("s0")}, {id("d0"), id("public")}, {id("system"), id("info")}, {0, 0}}
	for n := 1; n <= Pick(r, 4, 5); n++ {
		n, no := n, int64(len(steps))
		r.Cases(fmt.Sprintf("statements/%d", n), Power(no, n)*int64(len(starts))*4, func(w *Worker, i int64) {
			ds := Digits(i, Power(no, n), int64(len(starts)), 4)
			d, s := starts[ds[1]][0], starts[ds[1]][1]
			ses := evaluate.NewSession(&recEngine{at: ds[2], persist: ds[2] == 3}, d, s)
			var hist []string
			for _, k := range SeqDigits(int64(ds[0]), no, n, nil) {
				st := steps[k]
				hist = append(hist, st.text)
				o, txt := try(func() error {
					if st.text == "" {
						return ses.Evaluate(ctx, nil)
					}
					return ses.Evaluate(ctx, parseOne(st.text))
				})
				if o == oPanic {
					w.Fail("panic", "%q: %s", hist, txt)
					return
				}
				if st.db != "" {
					d = id(st.db)
				}
				if st.schema != "" {
					s = id(st.schema)
				}
				w.r.trans.Add(1)
				tn, sn := ses.ResolveTable(types.TableName{Table: id("t")}), ses.ResolveSchema(types.SchemaName{Schema: id("x")})
				if tn.Database != d || tn.Schema != s || tn.Table != id("t") || sn.Database != d || sn.Schema != id("x") {
					w.Fail("defaults", "%s: %q, call %d of the engine fails: t is %s and x is %s", show3(starts[ds[1]][0], starts[ds[1]][1]), hist,
						ds[2], show3(tn.Database, tn.Schema, tn.Table), show3(sn.Database, sn.Schema))
					return
				}
			}
		})
	}

	// Any names at all, including ones which are missing.
	all := []types.Identifier{0, id("a"), qid("A"), id("text"), qid("TEXT"), id("d0")}
	na := int64(len(all))
	r.Cases("resolve", na*na*na*na*na, func(w *Worker, i int64) {
		ds := Digits(i, na, na, na, na, na)
		d, s := all[ds[0]], all[ds[1]]
		ses := evaluate.NewSession(&recEngine{}, d, s)
		tn := types.TableName{Database: all[ds[2]], Schema: all[ds[3]], Table: all[ds[4]]}
		want := tn
		if tn.Database == 0 {
			want.Database = d
			if tn.Schema == 0 {
				want.Schema = s
			}
		}
		w.r.trans.Add(2)
		if got := ses.ResolveTable(tn); got != want {
			w.Fail("table", "session %s: %s resolved as %s", show3(d, s), show3(tn.Database, tn.Schema, tn.Table),
				show3(got.Database, got.Schema, got.Table))
		}
		sn := types.SchemaName{Database: tn.Database, Schema: tn.Schema}
		wantS := sn
		if sn.Database == 0 {
			wantS.Database = d
		}
		if got := ses.ResolveSchema(sn); got != wantS {
			w.Fail("schema", "session %s: %s resolved as %s", show3(d, s), show3(sn.Database, sn.Schema),
				show3(got.Database, got.Schema))
		}
	})
}

// spelled is the identifier for a name as it is written.
func spelled(s string) types.Identifier {
	if s[0] == '"' {
		return qid(s[1 : len(s)-1])
	}
	return id(s)
}
