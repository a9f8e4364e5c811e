// A generator of statements: the documented grammar as code which makes choices, and with the
// statement it builds the syntax tree which the text means. Every sequence of choices up to a bound
// on the number of choices which are not the first alternative is enumerated.
package main

import (
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type itemKind uint8

const (
	kKeyword itemKind = iota // case does not matter
	kWord                    // an identifier, number, or other word: used as is
	kPunct                   // ( ) , . @
	kSymbol                  // operators
)

type item struct {
	text string
	kind itemKind
}

type gen struct {
	prefix []uint8
	trace  []uint8
	radix  []uint8

	items   []item
	names   int
	plain   bool   // only unquoted names
	flip    bool   // the first alternative is the last
	bad     string // why the statement is not well formed
	noParse bool   // the printed form is not SQL
	last    item   // the last name
	lastID  types.Identifier

	big   *bigList
	sizes []int // of the lists so far
	auto  bool  // choices are not to be made
	nauto int
}

// A bigList makes one of the lists of a statement longer. The choices are those for the
// elements it would have had; they are not made for the others, which are the first alternative or
// vary: in turn, beginning with any of them, or without a pattern.
type bigList struct {
	at, n int
	vary  int
}

// n makes a choice out of k.
func (g *gen) n(k int) int {
	c := 0
	if g.auto {
		g.nauto++
		switch v := g.big.vary; {
		case v > 6:
			c = int((uint32(g.nauto*v)*2654435761)>>16) % k
		case v > 0:
			c = (g.nauto + v - 1) % k
		}
		return c
	}
	if p := len(g.trace); p < len(g.prefix) {
		c = int(g.prefix[p])
		if c >= k {
			panic("choice out of range")
		}
	}
	g.trace = append(g.trace, uint8(c))
	g.radix = append(g.radix, uint8(k))
	if g.flip {
		return k - 1 - c
	}
	return c
}

func (g *gen) opt() bool { return g.n(2) == 1 }

// enumerate returns every sequence of choices with up to dev choices other than the first.
func enumerate(dev int, flip bool, build func(g *gen) sql.Stmt) [][]uint8 {
	var all [][]uint8
	var explore func(prefix []uint8, devs int)
	explore = func(prefix []uint8, devs int) {
		g := &gen{prefix: prefix, flip: flip}
		build(g)
		all = append(all, g.trace)
		if devs == dev {
			return
		}
		for i := len(prefix); i < len(g.trace); i++ {
			for c := uint8(1); c < g.radix[i]; c++ {
				explore(append(append([]uint8{}, g.trace[:i]...), c), devs+1)
			}
		}
	}
	explore(nil, 0)
	return all
}

// kw adds keywords, separated by spaces.
func (g *gen) kw(s string) {
	for _, w := range strings.Fields(s) {
		g.items = append(g.items, item{w, kKeyword})
	}
}

func (g *gen) word(s string) { g.items = append(g.items, item{s, kWord}) }
func (g *gen) p(s string)    { g.items = append(g.items, item{s, kPunct}) }
func (g *gen) sym(s string)  { g.items = append(g.items, item{s, kSymbol}) }

// Names which are keywords, but not reserved.
var nameKeywords = []string{"text", "columns", "count", "system", "path", "btree", "stdin", "tables",
	"schemas", "config", "precision", "int", "public", "tree", "field", "databases", "bool", "char"}

// ident adds a name, different from all of the others in the statement.
func (g *gen) ident() types.Identifier {
	g.names++
	return g.spell(g.names, 6)
}

// again adds a name, which may be the same as the previous one.
func (g *gen) again() types.Identifier {
	prev, id := g.last, g.lastID
	if prev.text != "" && g.n(2) == 1 {
		g.items = append(g.items, prev)
		return id
	}
	return g.ident()
}

func (g *gen) spell(k, styles int) types.Identifier {
	id := g.spelled(k, styles)
	g.last, g.lastID = g.items[len(g.items)-1], id
	return id
}

func (g *gen) spelled(k, styles int) types.Identifier {
	s := string(rune('a' + (k-1)%26))
	if m := (k - 1) / 26; m < 10 {
		s += strings.Repeat("z", m)
	} else {
		s += "z" + strconv.Itoa(m)
	}
	style := g.n(styles)
	if g.auto && style == 1 {
		style = 0
	}
	switch style {
	case 1:
		w := nameKeywords[k%len(nameKeywords)]
		if k%2 == 0 {
			w = strings.ToUpper(w)
		}
		g.word(w)
		return types.ID(w, false)
	case 2:
		g.word(`"Q ` + s + `"`)
		g.plain = false
		return types.ID("Q "+s, true)
	case 3:
		g.word("[select;" + s + "]")
		g.plain = false
		return types.ID("select;"+s, true)
	case 4:
		g.word("É_$" + strings.ToUpper(s) + "9")
		return types.ID("é_$"+s+"9", true)
	case 5:
		w := "`" + []string{"TEXT", "PRIMARY", "select", "COUNT"}[k%4]
		g.word(w + s + "`")
		g.plain = false
		return types.ID(w[1:]+s, true)
	}
	g.word(s)
	return types.ID(s, true)
}

func (g *gen) tableName() types.TableName {
	var tn types.TableName
	switch g.n(3) {
	case 0:
		tn.Table = g.ident()
	case 1:
		tn.Schema = g.ident()
		g.p(".")
		tn.Table = g.again()
	case 2:
		tn.Database = g.ident()
		g.p(".")
		tn.Schema = g.again()
		g.p(".")
		tn.Table = g.again()
	}
	return tn
}

func (g *gen) schemaName() types.SchemaName {
	var sn types.SchemaName
	if g.opt() {
		sn.Database = g.ident()
		g.p(".")
	}
	sn.Schema = g.ident()
	return sn
}

const noLimit = 1 << 30

// list calls fn for each element of a list of up to max elements.
func (g *gen) list(max int, fn func(i int)) {
	g.times(g.n(max)+1, noLimit, func(i int) {
		if i > 0 {
			g.p(",")
		}
		fn(i)
	})
}

// times calls fn n times, or more if this is the list which is to be big.
func (g *gen) times(n, limit int, fn func(i int)) {
	big, first := false, 0 // the first element to be made without choices
	if !g.auto {
		if g.big != nil && g.big.at == len(g.sizes) {
			big, first = true, n
			if n < g.big.n {
				n = g.big.n
			}
			if n > limit {
				n = limit
			}
		}
		g.sizes = append(g.sizes, n)
	}
	for i := 0; i < n; i++ {
		if big && i >= first {
			g.auto = true
		}
		fn(i)
	}
	if big {
		g.auto = false
	}
}

func (g *gen) columns(max int) []types.Identifier {
	var cols []types.Identifier
	g.p("(")
	g.list(max, func(i int) { cols = append(cols, g.ident()) })
	g.p(")")
	return cols
}

// aliasOpt adds an optional alias.
func (g *gen) alias(required bool) types.Identifier {
	k := 3
	if required {
		k = 2
	}
	c := g.n(k)
	if required {
		c++
	}
	switch c {
	case 1:
		g.kw("AS")
		return g.again()
	case 2:
		return g.again()
	}
	return 0
}

func ref(ss ...types.Identifier) sql.Ref { return sql.Ref(ss) }

func lit(v types.Value) sql.Literal { return sql.Literal{Value: v} }

// expr adds one of a set of expressions; they are in the order of how much they are worth.
func (g *gen) expr() sql.Expr { return g.exprN(14) }

func (g *gen) exprN(max int) sql.Expr {
	bin := func(op sql.Op, l, r sql.Expr) sql.Expr { return &sql.BinaryExpr{Op: op, Left: l, Right: r} }
	x, y := types.ID("x", false), types.ID("y", false)
	switch g.n(max) {
	case 0:
		g.names++
		s := strconv.Itoa(100 + g.names)
		g.word(s)
		return lit(types.Int64Value(100 + g.names))
	case 1: // not x = 1 or y
		g.kw("NOT")
		g.word("x")
		g.sym("=")
		g.word("1")
		g.kw("OR")
		g.word("y")
		return bin(sql.OrOp, &sql.UnaryExpr{Op: sql.NotOp, Expr: bin(sql.EqualOp, ref(x), lit(types.Int64Value(1)))},
			ref(y))
	case 2: // (select x from y where 2)
		g.p("(")
		g.kw("SELECT")
		g.word("x")
		g.kw("FROM")
		g.word("y")
		g.kw("WHERE")
		g.word("2")
		g.p(")")
		return &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Select{
			Results: []sql.SelectResult{sql.ExprResult{Expr: ref(x)}},
			From:    &sql.FromTableAlias{TableName: types.TableName{Table: y}},
			Where:   lit(types.Int64Value(2))}}
	case 3: // d.s.t.c
		a, b := g.spell(1, 3), types.ID("x", false)
		g.p(".")
		g.word("X")
		g.p(".")
		g.word("y")
		return ref(a, b, y)
	case 4:
		g.word("'it''s ,);'")
		return lit(types.StringValue("it's ,);"))
	case 5:
		g.kw("NULL")
		return lit(nil)
	case 6:
		g.word("-9223372036854775808")
		return lit(types.Int64Value(-1 << 63))
	case 7: // count(*) is not null
		g.kw("COUNT")
		g.p("(")
		g.sym("*")
		g.p(")")
		g.kw("IS NOT NULL")
		return &sql.UnaryExpr{Op: sql.NotOp, Expr: &sql.SExpr{Name: types.ID("is_null", false),
			Args: []sql.Expr{&sql.SExpr{Name: types.COUNT_ALL}}}}
	case 8: // f(x, -y, g())
		g.word("f")
		g.p("(")
		g.word("x")
		g.p(",")
		g.sym("-")
		g.word("y")
		g.p(",")
		g.word("g")
		g.p("(")
		g.p(")")
		g.p(")")
		return &sql.SExpr{Name: types.ID("f", false), Args: []sql.Expr{ref(x),
			&sql.UnaryExpr{Op: sql.NegateOp, Expr: ref(y)}, &sql.SExpr{Name: types.ID("g", false)}}}
	case 9: // x not in (values (1, true), (2.5, false))
		g.word("x")
		g.kw("NOT IN")
		g.p("(")
		g.kw("VALUES")
		g.p("(")
		g.word("1")
		g.p(",")
		g.kw("TRUE")
		g.p(")")
		g.p(",")
		g.p("(")
		g.word("2.5")
		g.p(",")
		g.kw("FALSE")
		g.p(")")
		g.p(")")
		return &sql.Subquery{Op: sql.All, ExprOp: sql.NotEqualOp, Expr: ref(x), Stmt: &sql.Values{
			Expressions: [][]sql.Expr{{lit(types.Int64Value(1)), lit(types.BoolValue(true))},
				{lit(types.Float64Value(2.5)), lit(types.BoolValue(false))}}}}
	case 10:
		g.word(`b'\x00a\xFf'`)
		return lit(types.BytesValue{0, 'a', 255})
	case 11: // (1 - x) * y
		g.p("(")
		g.word("1")
		g.sym("-")
		g.word("x")
		g.p(")")
		g.sym("*")
		g.word("y")
		return bin(sql.MultiplyOp, bin(sql.SubtractOp, lit(types.Int64Value(1)), ref(x)), ref(y))
	case 12: // exists(table x.y)
		g.kw("EXISTS")
		g.p("(")
		g.kw("TABLE")
		g.word("x")
		g.p(".")
		g.word("y")
		g.p(")")
		return &sql.Subquery{Op: sql.Exists, Stmt: &sql.Select{
			From: &sql.FromTableAlias{TableName: types.TableName{Schema: x, Table: y}}}}
	case 13: // x <= all(show schema)
		g.word("x")
		g.sym("<=")
		g.kw("ALL")
		g.p("(")
		g.kw("SHOW SCHEMA")
		g.p(")")
		return &sql.Subquery{Op: sql.All, ExprOp: sql.LessEqualOp, Expr: ref(x),
			Stmt: &sql.Show{Variable: types.SCHEMA}}
	}
	panic("unreachable")
}

var genTypes = []struct {
	name  string
	ct    types.ColumnType
	sized bool
}{
	{"INT", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"VARCHAR", types.ColumnType{Type: types.StringType, Size: 1}, true},
	{"BINARY", types.ColumnType{Type: types.BytesType, Fixed: true, Size: 1}, true},
	{"BOOL", types.ColumnType{Type: types.BoolType, Size: 1}, false},
	{"DOUBLE PRECISION", types.ColumnType{Type: types.Float64Type, Size: 8}, false},
	{"DOUBLE", types.ColumnType{Type: types.Float64Type, Size: 8}, false},
	{"REAL", types.ColumnType{Type: types.Float64Type, Size: 4}, false},
	{"VARBINARY", types.ColumnType{Type: types.BytesType, Size: 1}, true},
	{"BLOB", types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}, true},
	{"BYTEA", types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}, true},
	{"BYTES", types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}, true},
	{"CHAR", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}, true},
	{"CHARACTER", types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}, true},
	{"TEXT", types.ColumnType{Type: types.StringType, Size: types.MaxColumnSize}, true},
	{"BOOLEAN", types.ColumnType{Type: types.BoolType, Size: 1}, false},
	{"SMALLINT", types.ColumnType{Type: types.Int64Type, Size: 2}, false},
	{"INT2", types.ColumnType{Type: types.Int64Type, Size: 2}, false},
	{"INTEGER", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"INT4", types.ColumnType{Type: types.Int64Type, Size: 4}, false},
	{"INT8", types.ColumnType{Type: types.Int64Type, Size: 8}, false},
	{"BIGINT", types.ColumnType{Type: types.Int64Type, Size: 8}, false},
}

func (g *gen) columnType() types.ColumnType {
	gt := genTypes[g.n(len(genTypes))]
	g.kw(gt.name)
	ct := gt.ct
	if gt.sized {
		if c := g.n(5); c > 0 {
			ct.Size = []uint32{0, 7, 1, 65536, types.MaxColumnSize}[c]
			g.p("(")
			g.word(strconv.FormatUint(uint64(ct.Size), 10))
			g.p(")")
		}
	}
	return ct
}

// table is the state of the statement CREATE TABLE.
func (g *gen) key(unique bool, cols []types.Identifier, texts []string, max int) sql.IndexKey {
	key := sql.IndexKey{Unique: unique}
	g.p("(")
	left := make([]int, len(cols))
	for i := range left {
		left[i] = i
	}
	limit := noLimit
	if cols != nil {
		limit = len(cols)
	}
	g.times(g.n(max)+1, limit, func(i int) {
		if i > 0 {
			g.p(",")
		}
		if cols == nil {
			key.Columns = append(key.Columns, g.ident())
		} else {
			k := g.n(len(left))
			g.word(texts[left[k]])
			key.Columns = append(key.Columns, cols[left[k]])
			left = append(left[:k:k], left[k+1:]...)
		}
		switch g.n(3) {
		case 0:
			key.Reverse = append(key.Reverse, false)
		case 1:
			g.kw("DESC")
			key.Reverse = append(key.Reverse, true)
		case 2:
			g.kw("ASC")
			key.Reverse = append(key.Reverse, false)
		}
	})
	g.p(")")
	return key
}

var refActions = []struct {
	text string
	act  sql.RefAction
}{
	{"CASCADE", sql.Cascade},
	{"SET NULL", sql.SetNull},
	{"SET DEFAULT", sql.SetDefault},
	{"RESTRICT", sql.Restrict},
	{"NO ACTION", sql.NoAction},
}

// onActions adds ON DELETE and ON UPDATE in either order.
func (g *gen) onActions(fk *sql.ForeignKey) {
	del := func() {
		a := refActions[g.n(len(refActions))]
		g.kw("ON DELETE " + a.text)
		fk.OnDelete = a.act
	}
	upd := func() {
		a := refActions[g.n(len(refActions))]
		g.kw("ON UPDATE " + a.text)
		fk.OnUpdate = a.act
	}
	switch g.n(5) {
	case 1:
		del()
	case 2:
		upd()
	case 3:
		del()
		upd()
	case 4:
		upd()
		del()
	}
}

func (g *gen) foreignKey(cn types.Identifier, max int) *sql.ForeignKey {
	fk := &sql.ForeignKey{Name: cn}
	g.noParse = g.noParse || cn == 0
	g.kw("FOREIGN KEY")
	from := len(g.items)
	fk.FKCols = g.columns(max)
	to := len(g.items)
	g.kw("REFERENCES")
	fk.RefTable = g.tableName()
	switch g.n(3) {
	case 1:
		fk.RefCols = g.columns(max)
	case 2: // the same columns
		g.items = append(g.items, g.items[from:to]...)
		fk.RefCols = fk.FKCols
	}
	g.onActions(fk)
	return fk
}

func autoName(key sql.IndexKey, suffix string) types.Identifier {
	s := ""
	for _, c := range key.Columns {
		s += c.String() + "_"
	}
	return types.ID(s+suffix, false)
}

// conflict is whether a key constraint is not allowed with the ones before it.
func conflict(ct *sql.CreateTable, c sql.Constraint) bool {
	for _, o := range ct.Constraints {
		if o.Type == sql.PrimaryConstraint && c.Type == sql.PrimaryConstraint {
			return true
		}
		if (o.Type == sql.PrimaryConstraint || o.Type == sql.UniqueConstraint) &&
			(c.Type == sql.PrimaryConstraint || c.Type == sql.UniqueConstraint) && o.Key.Equal(c.Key) {
			return true
		}
		if c.Name != 0 && o.Name == c.Name {
			return true
		}
	}
	return false
}

func genCreateTable(ncols, ncons, ntbl int) func(g *gen) sql.Stmt {
	return func(g *gen) sql.Stmt {
		st := &sql.CreateTable{}
		g.kw("CREATE TABLE")
		if g.opt() {
			g.kw("IF NOT EXISTS")
			st.IfNotExists = true
		}
		st.Table = g.tableName()
		g.p("(")
		var texts []string
		named := func() types.Identifier {
			if g.opt() {
				g.kw("CONSTRAINT")
				return g.ident()
			}
			return 0
		}
		addKey := func(typ sql.ConstraintType, cn types.Identifier, key sql.IndexKey) {
			if cn == 0 {
				cn = autoName(key, map[sql.ConstraintType]string{sql.PrimaryConstraint: "primary",
					sql.UniqueConstraint: "unique"}[typ])
			}
			c := sql.Constraint{Type: typ, Name: cn, ColNum: -1, Key: key}
			if conflict(st, c) {
				g.bad = "keys"
			}
			st.Constraints = append(st.Constraints, c)
		}
		g.list(ncols, func(i int) {
			col := g.ident()
			text := g.items[len(g.items)-1].text
			texts = append(texts, text)
			st.Columns = append(st.Columns, col)
			ct := g.columnType()
			var dflt sql.Expr
			m := g.n(ncons + 1)
			used := map[int]bool{}
			for k := 0; k < m; k++ {
				cn := named()
				c := g.n(6)
				if g.auto && c == 2 {
					c = 3 // there is one primary key
				}
				if used[c] && c < 4 {
					g.bad = "repeated"
				}
				used[c] = true
				key := sql.IndexKey{Unique: true, Columns: []types.Identifier{col}, Reverse: []bool{false}}
				switch c {
				case 0:
					g.kw("NOT NULL")
					ct.NotNull = true
					if cn != 0 {
						st.Constraints = append(st.Constraints,
							sql.Constraint{Type: sql.NotNullConstraint, Name: cn, ColNum: i})
					}
				case 1:
					g.kw("DEFAULT")
					dflt = g.expr()
					if cn != 0 {
						st.Constraints = append(st.Constraints,
							sql.Constraint{Type: sql.DefaultConstraint, Name: cn, ColNum: i})
					}
				case 2:
					g.kw("PRIMARY KEY")
					addKey(sql.PrimaryConstraint, cn, key)
				case 3:
					g.kw("UNIQUE")
					addKey(sql.UniqueConstraint, cn, key)
				case 4:
					g.kw("CHECK")
					g.p("(")
					st.Constraints = append(st.Constraints, sql.Constraint{Type: sql.CheckConstraint,
						Name: cn, ColNum: i, Check: g.expr()})
					g.p(")")
				case 5:
					fk := &sql.ForeignKey{Name: cn, FKCols: []types.Identifier{col}}
					g.kw("REFERENCES")
					fk.RefTable = g.tableName()
					switch g.n(3) {
					case 1:
						fk.RefCols = g.columns(1)
					case 2: // the same column
						g.p("(")
						g.word(text)
						g.p(")")
						fk.RefCols = fk.FKCols
					}
					g.onActions(fk)
					st.ForeignKeys = append(st.ForeignKeys, fk)
				}
			}
			st.ColumnTypes = append(st.ColumnTypes, ct)
			st.ColumnDefaults = append(st.ColumnDefaults, dflt)
		})
		g.times(g.n(ntbl+1), noLimit, func(i int) {
			g.p(",")
			cn := named()
			c := g.n(4)
			if g.auto && c < 2 {
				c += 2 // the keys are different
			}
			switch c {
			case 0:
				g.kw("PRIMARY KEY")
				addKey(sql.PrimaryConstraint, cn, g.key(true, st.Columns, texts, len(texts)))
			case 1:
				g.kw("UNIQUE")
				addKey(sql.UniqueConstraint, cn, g.key(true, st.Columns, texts, len(texts)))
			case 2:
				g.kw("CHECK")
				g.p("(")
				st.Constraints = append(st.Constraints, sql.Constraint{Type: sql.CheckConstraint,
					Name: cn, ColNum: -1, Check: g.expr()})
				g.p(")")
			case 3:
				st.ForeignKeys = append(st.ForeignKeys, g.foreignKey(cn, 2))
			}
		})
		g.p(")")
		g.noParse = g.noParse || !printedTable(st)
		return st
	}
}

// printedTable is whether all of a table is printed as SQL.
func printedTable(st *sql.CreateTable) bool {
	for _, ct := range st.ColumnTypes {
		ct.NotNull = false
		switch ct {
		case genTypes[0].ct, genTypes[3].ct, genTypes[4].ct, genTypes[10].ct:
		default:
			return false // the size is not printed, and STRING is not a type
		}
	}
	for _, c := range st.Constraints {
		switch c.Type {
		case sql.DefaultConstraint, sql.NotNullConstraint:
			return false // the name is not printed
		case sql.CheckConstraint:
			if c.Name == 0 || c.ColNum >= 0 {
				return false // printed without a name, and following the columns
			}
		}
	}
	for _, fk := range st.ForeignKeys {
		if fk.Name == 0 {
			return false
		}
	}
	return true
}

func genAlterTable(n int) func(g *gen) sql.Stmt {
	return func(g *gen) sql.Stmt {
		st := &sql.AlterTable{}
		g.kw("ALTER TABLE")
		st.Table = g.tableName()
		g.list(n, func(i int) {
			switch g.n(4) {
			case 0:
				g.kw("ADD")
				var cn types.Identifier
				if g.opt() {
					g.kw("CONSTRAINT")
					cn = g.ident()
				}
				st.Actions = append(st.Actions, &sql.AddForeignKey{ForeignKey: *g.foreignKey(cn, 2)})
			case 1:
				g.kw("DROP CONSTRAINT")
				dc := &sql.DropConstraint{}
				if g.opt() {
					g.kw("IF EXISTS")
					dc.IfExists = true
				}
				dc.Name = g.ident()
				st.Actions = append(st.Actions, dc)
			default:
				g.kw("ALTER")
				if g.opt() {
					g.kw("COLUMN")
				}
				dc := &sql.DropConstraint{Column: g.ident()}
				if g.opt() {
					g.kw("DROP NOT NULL")
					dc.Type = sql.NotNullConstraint
				} else {
					g.kw("DROP DEFAULT")
					dc.Type = sql.DefaultConstraint
				}
				st.Actions = append(st.Actions, dc)
			}
		})
		return st
	}
}

func (g *gen) selectStmt(depth int) *sql.Select {
	st := &sql.Select{}
	g.kw("SELECT")
	if g.opt() {
		g.list(3, func(i int) {
			c := g.n(2)
			if c == 1 {
				t := g.ident()
				g.p(".")
				g.sym("*")
				st.Results = append(st.Results, sql.TableResult{Table: t})
				return
			}
			e := g.expr()
			st.Results = append(st.Results, sql.ExprResult{Expr: e, Alias: g.alias(false)})
		})
	} else {
		g.sym("*")
	}
	if g.opt() {
		g.kw("FROM")
		st.From = g.fromList(depth)
	}
	if g.opt() {
		g.kw("WHERE")
		st.Where = g.expr()
	}
	if g.opt() {
		g.kw("GROUP BY")
		g.list(2, func(i int) { st.GroupBy = append(st.GroupBy, g.expr()) })
	}
	if g.opt() {
		g.kw("HAVING")
		st.Having = g.expr()
	}
	if g.opt() {
		g.kw("ORDER BY")
		g.list(3, func(i int) {
			ob := sql.OrderBy{Expr: sql.Ref{g.ident()}}
			switch g.n(3) {
			case 1:
				g.kw("DESC")
				ob.Reverse = true
			case 2:
				g.kw("ASC")
			}
			st.OrderBy = append(st.OrderBy, ob)
		})
	}
	return st
}

func (g *gen) fromList(depth int) sql.FromItem {
	fi := g.fromItem(depth)
	g.times(g.n(3), noLimit, func(i int) {
		g.p(",")
		fi = sql.FromJoin{Left: fi, Right: g.fromItem(depth), Type: sql.CrossJoin}
	})
	return fi
}

func (g *gen) fromItem(depth int) sql.FromItem {
	fi := g.fromTable(depth)
	if depth <= 0 {
		return fi
	}
	g.times(g.n(3), noLimit, func(i int) {
		fj := sql.FromJoin{Left: fi}
		switch g.n(9) {
		case 0:
			g.kw("JOIN")
			fj.Type = sql.Join
		case 1:
			g.kw("LEFT JOIN")
			fj.Type = sql.LeftJoin
		case 2:
			g.kw("RIGHT OUTER JOIN")
			fj.Type = sql.RightJoin
		case 3:
			g.kw("CROSS JOIN")
			fj.Type = sql.CrossJoin
		case 4:
			g.kw("FULL JOIN")
			fj.Type = sql.FullJoin
		case 5:
			g.kw("INNER JOIN")
			fj.Type = sql.Join
		case 6:
			g.kw("LEFT OUTER JOIN")
			fj.Type = sql.LeftJoin
		case 7:
			g.kw("RIGHT JOIN")
			fj.Type = sql.RightJoin
		case 8:
			g.kw("FULL OUTER JOIN")
			fj.Type = sql.FullJoin
		}
		if fj.Type == sql.CrossJoin {
			fj.Right = g.fromTable(depth - 1)
		} else {
			// Only one item on the right can have a join of its own: its condition comes first.
			fj.Right = g.fromItem(depth - 1)
			if g.opt() {
				g.kw("USING")
				fj.Using = g.columns(2)
			} else {
				g.kw("ON")
				fj.On = g.expr()
			}
		}
		fi = fj
	})
	return fi
}

func (g *gen) fromTable(depth int) sql.FromItem {
	k := 4
	if depth <= -2 {
		k = 2
	}
	switch g.n(k) {
	case 1:
		tn := g.tableName()
		g.p("@")
		fia := &sql.FromIndexAlias{TableName: tn, Index: g.ident()}
		fia.Alias = g.alias(false)
		return fia
	case 2:
		g.p("(")
		var st sql.Stmt
		switch g.n(4) {
		case 0:
			if depth <= 0 {
				g.kw("SELECT")
				g.sym("*")
				st = &sql.Select{}
			} else {
				st = g.selectStmt(depth - 1)
			}
		case 1:
			st = g.values(2, 2)
		case 2:
			st = g.show()
		case 3:
			g.kw("TABLE")
			st = &sql.Select{From: &sql.FromTableAlias{TableName: g.tableName()}}
		}
		g.p(")")
		fs := sql.FromStmt{Stmt: st, Alias: g.alias(true)}
		if g.opt() {
			fs.ColumnAliases = g.columns(2)
		}
		return fs
	case 3:
		g.p("(")
		fi := g.fromList(depth - 1)
		g.p(")")
		return fi
	}
	fta := &sql.FromTableAlias{TableName: g.tableName()}
	fta.Alias = g.alias(false)
	return fta
}

func (g *gen) values(rows, cols int) *sql.Values {
	st := &sql.Values{}
	g.kw("VALUES")
	var base, n int
	g.list(rows, func(i int) {
		var row []sql.Expr
		g.p("(")
		elem := func(k int) {
			if k > 0 {
				g.p(",")
			}
			row = append(row, g.expr())
		}
		if i == 0 {
			base = g.n(cols) + 1
			g.times(base, noLimit, elem)
			n = len(row)
		} else {
			auto := g.auto
			for k := 0; k < n; k++ {
				g.auto = auto || k >= base
				elem(k)
			}
			g.auto = auto
		}
		g.p(")")
		st.Expressions = append(st.Expressions, row)
	})
	return st
}

func (g *gen) show() sql.Stmt {
	eq := func(s string, e sql.Expr) sql.Expr {
		return &sql.BinaryExpr{Op: sql.EqualOp, Left: ref(types.ID(s, false)), Right: e}
	}
	current := func() sql.Expr {
		return &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Show{Variable: types.SCHEMA}}
	}
	meta := func(db, sn, t types.Identifier) sql.FromItem {
		return &sql.FromTableAlias{TableName: types.TableName{Database: db, Schema: sn, Table: t}}
	}
	c := g.n(10)
	switch c {
	case 0:
		g.kw("SHOW SCHEMA")
		return &sql.Show{Variable: types.SCHEMA}
	case 1:
		g.kw("SHOW DATABASE")
		return &sql.Show{Variable: types.DATABASE}
	case 2:
		g.kw("SHOW")
		g.names++
		return &sql.Show{Variable: g.spell(30+g.names, 1)}
	case 3, 4:
		tbl := types.COLUMNS
		if c == 4 {
			tbl = types.CONSTRAINTS
			g.kw("SHOW CONSTRAINTS FROM")
		} else {
			g.kw("SHOW COLUMNS FROM")
		}
		tn := g.tableName()
		sc := current()
		if tn.Schema != 0 {
			sc = lit(types.StringValue(tn.Schema.String()))
		}
		return &sql.Select{From: meta(tn.Database, types.METADATA, tbl),
			Where: &sql.BinaryExpr{Op: sql.AndOp, Left: eq("table_name", lit(types.StringValue(tn.Table.String()))),
				Right: eq("schema_name", sc)}}
	case 5:
		g.kw("SHOW CONFIG")
		var rs []sql.SelectResult
		for _, s := range []string{"name", "value"} {
			rs = append(rs, sql.ExprResult{Expr: ref(types.ID(s, false))})
		}
		rs = append(rs, sql.ExprResult{Expr: ref(types.ID("by", false))})
		g.noParse = true
		return &sql.Select{Results: rs, From: meta(types.SYSTEM, types.INFO, types.CONFIG),
			Where: eq("hidden", lit(types.BoolValue(false)))}
	case 6:
		g.kw("SHOW DATABASES")
		return &sql.Select{From: meta(types.SYSTEM, types.INFO, types.DATABASES)}
	case 7:
		g.kw("SHOW SCHEMAS")
		var db types.Identifier
		if g.opt() {
			g.kw("FROM")
			db = g.ident()
		}
		return &sql.Select{From: meta(db, types.METADATA, types.SCHEMAS)}
	case 8:
		g.kw("SHOW TABLES")
		return &sql.Select{From: meta(0, types.METADATA, types.TABLES), Where: eq("schema_name", current())}
	case 9:
		g.kw("SHOW TABLES FROM")
		sn := g.schemaName()
		return &sql.Select{From: meta(sn.Database, types.METADATA, types.TABLES),
			Where: eq("schema_name", lit(types.StringValue(sn.Schema.String())))}
	}
	panic("unreachable")
}

// literal adds a literal, and returns it as it is formatted by SET.
func (g *gen) literal() string {
	switch g.n(9) {
	case 0:
		g.word("'va lue'")
		return "va lue"
	case 1:
		g.word("-12")
		return "-12"
	case 2:
		g.kw("TRUE")
		return types.FormatValue(types.BoolValue(true))
	case 3:
		g.kw("NULL")
		return "NULL"
	case 4:
		g.word("1.5")
		return types.FormatValue(types.Float64Value(1.5))
	case 5:
		g.word("''")
		return ""
	case 6:
		g.word("b'ab'")
		return types.FormatValue(types.BytesValue("ab"))
	case 7:
		g.kw("FALSE")
		return types.FormatValue(types.BoolValue(false))
	default:
		g.word("'text'")
		return "text"
	}
}

func genSet(g *gen) sql.Stmt {
	st := &sql.Set{}
	g.noParse = true
	g.kw("SET")
	switch g.n(3) {
	case 0:
		g.kw("DATABASE")
		st.Variable = types.DATABASE
	case 1:
		g.kw("SCHEMA")
		st.Variable = types.SCHEMA
	case 2:
		st.Variable = g.ident()
	}
	if g.opt() {
		g.sym("=")
	} else {
		g.kw("TO")
	}
	st.Value = g.literal()
	return st
}

func genUse(g *gen) sql.Stmt {
	g.noParse = true
	g.kw("USE")
	return &sql.Set{Variable: types.DATABASE, Value: g.literal()}
}

func (g *gen) options() map[types.Identifier]string {
	opts := map[types.Identifier]string{}
	g.times(g.n(3)+1, noLimit, func(i int) {
		opt := g.ident()
		eq := g.opt()
		if eq {
			g.sym("=")
		}
		var val string
		switch g.n(6) {
		case 0:
			val = g.ident().String()
		case 1:
			g.word("'/a path;'")
			val = "/a path;"
			g.noParse = true
		case 2:
			if eq {
				g.word("-7")
				val = "-7"
			} else {
				g.word("7")
				val = "7"
			}
			g.noParse = true
		case 3:
			g.word("0.25")
			val = "0.25"
			g.noParse = true
		case 4:
			g.word("b'xy'")
			val = "xy"
		case 5:
			g.word("9223372036854775807")
			val = "9223372036854775807"
			g.noParse = true
		}
		opts[opt] = val
	})
	return opts
}

type family struct {
	name   string
	dq, dt int // bound on choices other than the first: quick and thorough
	fq, ft int // the same, where the first is the last
	build  func(g *gen) sql.Stmt
}

const noBound = 1000

var families = []*family{
	{"transaction", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		switch g.n(4) {
		case 0:
			g.kw("BEGIN")
			return &sql.Begin{}
		case 1:
			g.kw("START TRANSACTION")
			return &sql.Begin{}
		case 2:
			g.kw("COMMIT")
			return &sql.Commit{}
		}
		g.kw("ROLLBACK")
		return &sql.Rollback{}
	}},
	{"create-database", 5, 6, 2, 3, func(g *gen) sql.Stmt {
		g.kw("CREATE DATABASE")
		st := &sql.CreateDatabase{Database: g.ident()}
		if g.opt() {
			g.kw("WITH")
			st.Options = g.options()
		}
		return st
	}},
	{"drop-database", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		st := &sql.DropDatabase{}
		g.kw("DROP DATABASE")
		if g.opt() {
			g.kw("IF EXISTS")
			st.IfExists = true
		}
		st.Database = g.ident()
		return st
	}},
	{"create-schema", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		g.kw("CREATE SCHEMA")
		return &sql.CreateSchema{Schema: g.schemaName()}
	}},
	{"drop-schema", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		st := &sql.DropSchema{}
		g.kw("DROP SCHEMA")
		if g.opt() {
			g.kw("IF EXISTS")
			st.IfExists = true
		}
		st.Schema = g.schemaName()
		return st
	}},
	{"create-table", 4, 5, 1, 2, genCreateTable(3, 3, 2)},
	{"alter-table", 4, 5, 2, 3, genAlterTable(3)},
	{"create-index", 5, 7, 2, 3, func(g *gen) sql.Stmt {
		st := &sql.CreateIndex{}
		g.kw("CREATE")
		unique := g.opt()
		if unique {
			g.kw("UNIQUE")
		}
		g.kw("INDEX")
		if g.opt() {
			g.kw("IF NOT EXISTS")
			st.IfNotExists = true
		}
		st.Index = g.ident()
		g.kw("ON")
		st.Table = g.tableName()
		if g.opt() {
			g.kw("USING BTREE")
		}
		st.Key = g.key(unique, nil, nil, 3)
		return st
	}},
	{"drop-index", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		st := &sql.DropIndex{}
		g.kw("DROP INDEX")
		if g.opt() {
			g.kw("IF EXISTS")
			st.IfExists = true
		}
		st.Index = g.ident()
		g.kw("ON")
		st.Table = g.tableName()
		return st
	}},
	{"drop-table", 6, 8, 3, 5, func(g *gen) sql.Stmt {
		st := &sql.DropTable{}
		g.kw("DROP TABLE")
		if g.opt() {
			g.kw("IF EXISTS")
			st.IfExists = true
		}
		g.list(3, func(i int) { st.Tables = append(st.Tables, g.tableName()) })
		switch g.n(3) {
		case 1:
			g.kw("CASCADE")
			st.Cascade = true
		case 2:
			g.kw("RESTRICT")
		}
		return st
	}},
	{"delete", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		st := &sql.Delete{}
		g.kw("DELETE FROM")
		st.Table = g.tableName()
		if g.opt() {
			g.kw("WHERE")
			st.Where = g.expr()
		}
		return st
	}},
	{"insert", 4, 5, 3, 4, func(g *gen) sql.Stmt {
		st := &sql.InsertValues{}
		g.kw("INSERT INTO")
		st.Table = g.tableName()
		if g.opt() {
			st.Columns = g.columns(3)
		}
		g.kw("VALUES")
		g.list(3, func(i int) {
			var row []sql.Expr
			g.p("(")
			g.list(3, func(k int) {
				if g.opt() {
					g.kw("DEFAULT")
					row = append(row, nil)
				} else {
					row = append(row, g.expr())
				}
			})
			g.p(")")
			st.Rows = append(st.Rows, row)
		})
		return st
	}},
	{"update", 5, 6, 3, 4, func(g *gen) sql.Stmt {
		st := &sql.Update{}
		g.kw("UPDATE")
		st.Table = g.tableName()
		g.kw("SET")
		g.list(3, func(i int) {
			cu := sql.ColumnUpdate{Column: g.ident()}
			g.sym("=")
			if g.opt() {
				g.kw("DEFAULT")
			} else {
				cu.Expr = g.expr()
			}
			st.ColumnUpdates = append(st.ColumnUpdates, cu)
		})
		if g.opt() {
			g.kw("WHERE")
			st.Where = g.expr()
		}
		return st
	}},
	{"values", 4, 5, 2, 3, func(g *gen) sql.Stmt { return g.values(3, 3) }},
	{"select", 5, 6, 1, 2, func(g *gen) sql.Stmt {
		if g.flip {
			return g.selectStmt(0)
		}
		return g.selectStmt(2)
	}},
	{"copy", noBound, noBound, 0, 0, func(g *gen) sql.Stmt {
		st := &sql.Copy{Delimiter: '\t'}
		g.kw("COPY")
		st.Table = g.tableName()
		if g.opt() {
			st.Columns = g.columns(2)
		}
		g.kw("FROM STDIN")
		if c := g.n(4); c > 0 {
			g.kw("DELIMITER")
			g.word([]string{"", "','", "''''", "'|'"}[c])
			st.Delimiter = rune([]byte("\t,'|")[c])
		}
		return st
	}},
	{"set", noBound, noBound, 0, 0, genSet},
	{"use", noBound, noBound, 0, 0, genUse},
	{"show", noBound, noBound, 0, 0, func(g *gen) sql.Stmt { return g.show() }},
	{"explain", 4, 5, 1, 2, func(g *gen) sql.Stmt {
		st := &sql.Explain{}
		g.kw("EXPLAIN")
		if g.opt() {
			g.kw("VERBOSE")
			st.Verbose = true
		}
		if g.flip {
			st.Stmt = g.selectStmt(-1)
		} else {
			st.Stmt = g.selectStmt(1)
		}
		return st
	}},
}

// build returns the statement for the choices, which must all be used.
func (f *family) generate(vec []uint8, flip bool, big *bigList) (*gen, sql.Stmt) {
	g := &gen{prefix: vec, plain: true, flip: flip, big: big}
	st := f.build(g)
	if len(g.trace) != len(vec) {
		panic("the generator is not deterministic")
	}
	return g, st
}

const renderModes = 3

// render returns the text of the items.
func render(items []item, mode int) string {
	var sb strings.Builder
	for i, it := range items {
		text := it.text
		if it.kind == kKeyword {
			switch mode {
			case 0:
				text = strings.ToLower(text)
			case 2:
				text = mixCase(text, 0x55>>(i&1))
			}
		}
		if i > 0 {
			prev := items[i-1]
			switch mode {
			case 0:
				sb.WriteByte(' ')
			case 1:
				// As little as possible.
				word := func(k itemKind) bool { return k == kKeyword || k == kWord }
				if word(prev.kind) && word(it.kind) || prev.kind == kSymbol && it.kind != kPunct ||
					it.kind == kSymbol && prev.kind == kSymbol {
					sb.WriteByte(' ')
				}
			case 2:
				sb.WriteString([]string{"\n\t", " /*;'*/ ", " --;\n", "\r\n  "}[i%4])
			}
		}
		sb.WriteString(text)
	}
	return sb.String()
}
