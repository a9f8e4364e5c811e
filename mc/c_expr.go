// C25: the grouping of expressions.
package main

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

var opText = map[sql.Op]string{
	sql.AddOp: "+", sql.AndOp: "and", sql.BinaryAndOp: "&", sql.BinaryOrOp: "|", sql.ConcatOp: "||",
	sql.DivideOp: "/", sql.EqualOp: "=", sql.GreaterEqualOp: ">=", sql.GreaterThanOp: ">",
	sql.LessEqualOp: "<=", sql.LessThanOp: "<", sql.LShiftOp: "<<", sql.ModuloOp: "%",
	sql.MultiplyOp: "*", sql.NotEqualOp: "!=", sql.OrOp: "or", sql.RShiftOp: ">>", sql.SubtractOp: "-",
}

// group returns an expression as nested lists, without parentheses which only group.
func group(e sql.Expr) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case sql.Literal:
		return types.FormatValue(e.Value)
	case *sql.Literal:
		return types.FormatValue(e.Value)
	case sql.Ref:
		return e.String()
	case *sql.UnaryExpr:
		switch e.Op {
		case sql.NoOp:
			return group(e.Expr)
		case sql.NegateOp:
			return "(neg " + group(e.Expr) + ")"
		case sql.NotOp:
			return "(not " + group(e.Expr) + ")"
		}
		return fmt.Sprintf("(unary%d %s)", e.Op, group(e.Expr))
	case *sql.BinaryExpr:
		s, ok := opText[e.Op]
		if !ok {
			s = fmt.Sprintf("binary%d", e.Op)
		}
		return "(" + s + " " + group(e.Left) + " " + group(e.Right) + ")"
	case *sql.SExpr:
		if e.Name == types.ID("is_null", false) && len(e.Args) == 1 {
			return "(isnull " + group(e.Args[0]) + ")"
		}
		s := "(call " + e.Name.String()
		for _, a := range e.Args {
			s += " " + group(a)
		}
		return s + ")"
	case *sql.Subquery:
		st := "?"
		if e.Stmt != nil {
			st = e.Stmt.String()
		}
		switch e.Op {
		case sql.Scalar:
			return "(scalar " + st + ")"
		case sql.Exists:
			return "(exists " + st + ")"
		case sql.Any:
			return "(any" + opText[e.ExprOp] + " " + group(e.Expr) + " " + st + ")"
		case sql.All:
			return "(all" + opText[e.ExprOp] + " " + group(e.Expr) + " " + st + ")"
		}
	}
	return fmt.Sprintf("%T(%v)", e, e)
}

// The reference: precedence climbing over the items of an expression.
type refParser struct {
	items []string
	pos   int
}

var refOps = map[string]struct {
	prec int
	text string
}{
	"||": {10, "||"},
	"*":  {8, "*"}, "/": {8, "/"}, "%": {8, "%"},
	"+": {7, "+"}, "-": {7, "-"},
	"&": {6, "&"}, "|": {6, "|"}, "<<": {6, "<<"}, ">>": {6, ">>"},
	"<": {5, "<"}, "<=": {5, "<="}, ">": {5, ">"}, ">=": {5, ">="},
	"=": {4, "="}, "==": {4, "="}, "!=": {4, "!="}, "<>": {4, "!="},
	"and": {2, "and"}, "or": {1, "or"},
}

func (rp *refParser) peek(k int) string {
	if rp.pos+k < len(rp.items) {
		return rp.items[rp.pos+k]
	}
	return ""
}

// A subquery is one item: its text in parentheses, starting with "(S".
func subqueryText(item string) string { return item[1 : len(item)-1] }
func isSubquery(item string) bool     { return strings.HasPrefix(item, "(S") }

func (rp *refParser) parse(min int) string {
	item := rp.peek(0)
	rp.pos++
	var left string
	switch {
	case item == "-":
		left = "(neg " + rp.parse(9) + ")"
	case item == "not":
		left = "(not " + rp.parse(3) + ")"
	case item == "(":
		left = rp.parse(0)
		rp.pos++
	case item == "exists":
		left = "(exists " + subqueryText(rp.peek(0)) + ")"
		rp.pos++
	case isSubquery(item):
		left = "(scalar " + subqueryText(item) + ")"
	case strings.HasSuffix(item, "("):
		left = "(call " + item[:len(item)-1]
		if rp.peek(0) != ")" {
			for {
				left += " " + rp.parse(0)
				if rp.peek(0) != "," {
					break
				}
				rp.pos++
			}
		}
		rp.pos++
		left += ")"
	default:
		left = item
	}

	for {
		item := rp.peek(0)
		if item == "in" {
			if 4 < min {
				return left
			}
			left = "(any= " + left + " " + subqueryText(rp.peek(1)) + ")"
			rp.pos += 2
		} else if item == "not" && rp.peek(1) == "in" {
			if 4 < min {
				return left
			}
			left = "(all!= " + left + " " + subqueryText(rp.peek(2)) + ")"
			rp.pos += 3
		} else if item == "is" {
			if 4 < min {
				return left
			}
			if rp.peek(1) == "not" {
				left = "(not (isnull " + left + "))"
				rp.pos += 3
			} else {
				left = "(isnull " + left + ")"
				rp.pos += 2
			}
		} else if op, ok := refOps[item]; ok {
			if op.prec < min {
				return left
			}
			rp.pos++
			switch rp.peek(0) {
			case "any", "some":
				left = "(any" + op.text + " " + left + " " + subqueryText(rp.peek(1)) + ")"
				rp.pos += 2
			case "all":
				left = "(all" + op.text + " " + left + " " + subqueryText(rp.peek(1)) + ")"
				rp.pos += 2
			default:
				left = "(" + op.text + " " + left + " " + rp.parse(op.prec+1) + ")"
			}
		} else {
			return left
		}
	}
}

func refGroup(items []string) string {
	rp := &refParser{items: items}
	s := rp.parse(0)
	if rp.pos != len(items) {
		panic(fmt.Sprintf("reference: %q stopped at %d", items, rp.pos))
	}
	return s
}

// compareGroup fails the case unless got is the grouping of the items.
func compareGroup(w *Worker, items []string, where, got string) {
	want := refGroup(items)
	if got == want {
		return
	}
	w.Fail("grouping"+where, "%s: got %s; want %s", strings.Join(items, " "), got, want)
}

func checkExpr(w *Worker, items []string) {
	text := strings.Join(items, " ")
	e, err := parser.NewParser(strings.NewReader(text), "test").ParseExpr()
	w.r.trans.Add(int64(len(items)))
	if err != nil {
		w.Fail("error", "%s: %s", text, err)
		return
	}
	compareGroup(w, items, "", group(e))
}

var (
	allOps = []string{"||", "*", "/", "%", "+", "-", "&", "|", "<<", ">>", "<", "<=", ">", ">=", "=", "==", "!=",
		"<>", "and", "or"}
	repOps     = []string{"||", "*", "-", "&", "<", "=", "and", "or"}
	unaries    = [][]string{nil, {"-"}, {"not"}}
	moreUnary  = [][]string{nil, {"-"}, {"not"}, {"-", "-"}, {"not", "not"}, {"-", "not"}, {"not", "-"}}
	operands   = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}
	postfixes  = [][]string{nil, {"in", "(SELECT z)"}, {"is", "null"}, {"not", "in", "(SELECT y)"}, {"is", "not", "null"}}
	quantifier = [][]string{{"any", "(SELECT x)"}, {"all", "(SELECT w)"}}
)

// chain builds the items of operand, operator, operand, ... with prefixes and postfixes.
func chain(n int, op func(k int) string, pre func(k int) []string, post func(k int) []string) []string {
	var items []string
	for k := 0; k <= n; k++ {
		if k > 0 {
			items = append(items, op(k-1))
		}
		if pre != nil {
			items = append(items, pre(k)...)
		}
		items = append(items, operands[k%len(operands)])
		if post != nil {
			items = append(items, post(k)...)
		}
	}
	return items
}

// trees returns every expression with n operators as a list of items with parentheses around every
// operand which is not a leaf; the pairs of parentheses are numbered.
type exprTree struct {
	op          string
	left, right *exprTree
}

func allTrees(n int, bin, un []string) []*exprTree {
	if n == 0 {
		return []*exprTree{{}}
	}
	var ts []*exprTree
	for _, u := range un {
		for _, t := range allTrees(n-1, bin, un) {
			ts = append(ts, &exprTree{op: u, right: t})
		}
	}
	for l := 0; l < n; l++ {
		lt, rt := allTrees(l, bin, un), allTrees(n-1-l, bin, un)
		for _, b := range bin {
			for _, x := range lt {
				for _, y := range rt {
					ts = append(ts, &exprTree{b, x, y})
				}
			}
		}
	}
	return ts
}

func (t *exprTree) items(mask uint, pair, leaf *int, items []string) []string {
	if t.op == "" {
		*leaf++
		return append(items, operands[(*leaf-1)%len(operands)])
	}
	child := func(c *exprTree) {
		if c.op == "" {
			items = c.items(mask, pair, leaf, items)
			return
		}
		keep := mask&(1<<*pair) != 0
		*pair++
		if keep {
			items = append(items, "(")
		}
		items = c.items(mask, pair, leaf, items)
		if keep {
			items = append(items, ")")
		}
	}
	switch t.op {
	case "-1", "not":
		items = append(items, strings.TrimSuffix(t.op, "1"))
		child(t.right)
	case "in":
		child(t.right)
		items = append(items, "in", "(SELECT z)")
	case "isnull":
		child(t.right)
		items = append(items, "is", "null")
	case "any":
		child(t.right)
		items = append(items, "<", "any", "(SELECT z)")
	default:
		child(t.left)
		items = append(items, t.op)
		child(t.right)
	}
	return items
}

// exprContexts are the places an expression can be in a statement.
var exprContexts = []struct {
	prefix, suffix string
	expr           func(st sql.Stmt) sql.Expr
}{
	{"select ", "", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).Results[0].(sql.ExprResult).Expr }},
	{"select 1, ", " as x from t", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).Results[1].(sql.ExprResult).Expr }},
	{"select * from t where ", "", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).Where }},
	{"select * group by ", ", 1", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).GroupBy[0] }},
	{"select * group by 1, ", " having 1", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).GroupBy[1] }},
	{"select * having ", " order by a", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).Having }},
	{"select * from t join u on ", "", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).From.(sql.FromJoin).On }},
	{"select * from t join u on ", " where 1", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).From.(sql.FromJoin).On }},
	{"delete from t where ", "", func(st sql.Stmt) sql.Expr { return st.(*sql.Delete).Where }},
	{"update t set a = ", ", b = 1", func(st sql.Stmt) sql.Expr { return st.(*sql.Update).ColumnUpdates[0].Expr }},
	{"update t set a = 1 where ", "", func(st sql.Stmt) sql.Expr { return st.(*sql.Update).Where }},
	{"insert into t values (", ", 1)", func(st sql.Stmt) sql.Expr { return st.(*sql.InsertValues).Rows[0][0] }},
	{"insert into t values (1), (1, ", ")", func(st sql.Stmt) sql.Expr { return st.(*sql.InsertValues).Rows[1][1] }},
	{"values (", ")", func(st sql.Stmt) sql.Expr { return st.(*sql.Values).Expressions[0][0] }},
	{"create table t (c1 int default ", ", c2 int)", func(st sql.Stmt) sql.Expr { return st.(*sql.CreateTable).ColumnDefaults[0] }},
	{"create table t (c1 int default ", " not null)", func(st sql.Stmt) sql.Expr { return st.(*sql.CreateTable).ColumnDefaults[0] }},
	{"create table t (c1 int check (", "))", func(st sql.Stmt) sql.Expr { return st.(*sql.CreateTable).Constraints[0].Check }},
	{"create table t (c1 int, constraint c check (", "))", func(st sql.Stmt) sql.Expr { return st.(*sql.CreateTable).Constraints[0].Check }},
	{"select f(", ")", func(st sql.Stmt) sql.Expr {
		return st.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.SExpr).Args[0]
	}},
	{"select 1 + f(g(1), ", ", 2) * 3", func(st sql.Stmt) sql.Expr {
		e := st.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.BinaryExpr).Right
		return e.(*sql.BinaryExpr).Left.(*sql.SExpr).Args[1]
	}},
	{"select ((", "))", func(st sql.Stmt) sql.Expr { return st.(*sql.Select).Results[0].(sql.ExprResult).Expr }},
	{"select exists(select ", ")", func(st sql.Stmt) sql.Expr {
		return st.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.Subquery).Stmt.(*sql.Select).Results[0].(sql.ExprResult).Expr
	}},
	{"select (values (", "))", func(st sql.Stmt) sql.Expr {
		return st.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.Subquery).Stmt.(*sql.Values).Expressions[0][0]
	}},
	{"select 1 in (select * where ", ") or 2", func(st sql.Stmt) sql.Expr {
		e := st.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.BinaryExpr).Left
		return e.(*sql.Subquery).Stmt.(*sql.Select).Where
	}},
	{"select * from (select * where ", ") as x", func(st sql.Stmt) sql.Expr {
		return st.(*sql.Select).From.(sql.FromStmt).Stmt.(*sql.Select).Where
	}},
	{"explain select ", "", func(st sql.Stmt) sql.Expr {
		return st.(*sql.Explain).Stmt.(*sql.Select).Results[0].(sql.ExprResult).Expr
	}},
}

func init() {
	checks["C25"] = func(r *Run) {
		r.Assume("IS NULL is taken to have the precedence of equality, as IN has.",
			"A quantified comparison (ANY, SOME, ALL) is a postfix operator with the precedence of its comparison.")
		r.Sample(map[string]any{"expression": "- a || b in (SELECT z) and not c",
			"grouping": refGroup([]string{"-", "a", "||", "b", "in", "(SELECT z)", "and", "not", "c"})})
		nAll, nRep := int64(len(allOps)), int64(len(repOps))

		// Every operator with every operator, with prefix operators on every operand.
		for n := 0; n <= Pick(r, 2, 3); n++ {
			nu := int64(len(moreUnary))
			if n == 3 {
				nu = 3
			}
			r.Cases(fmt.Sprintf("all/%d", n), Power(nAll, n)*Power(nu, n+1), func(w *Worker, i int64) {
				us := SeqDigits(i%Power(nu, n+1), nu, n+1, nil)
				ops := SeqDigits(i/Power(nu, n+1), nAll, n, nil)
				checkExpr(w, chain(n, func(k int) string { return allOps[ops[k]] },
					func(k int) []string { return moreUnary[us[k]] }, nil))
			})
		}
		r.Cases("all/3", Pick(r, Power(nAll, 3), 0), func(w *Worker, i int64) {
			ops := SeqDigits(i, nAll, 3, nil)
			checkExpr(w, chain(3, func(k int) string { return allOps[ops[k]] }, nil, nil))
		})

		// One operator of each precedence.
		for n := 3; n <= Pick(r, 4, 4); n++ {
			r.Cases(fmt.Sprintf("unary/%d", n), Power(nRep, n)*Power(3, n+1), func(w *Worker, i int64) {
				us := SeqDigits(i%Power(3, n+1), 3, n+1, nil)
				ops := SeqDigits(i/Power(3, n+1), nRep, n, nil)
				checkExpr(w, chain(n, func(k int) string { return repOps[ops[k]] },
					func(k int) []string { return unaries[us[k]] }, nil))
			})
		}
		for n := 5; n <= Pick(r, 6, 7); n++ {
			r.Cases(fmt.Sprintf("binary/%d", n), Power(nRep, n), func(w *Worker, i int64) {
				ops := SeqDigits(i, nRep, n, nil)
				checkExpr(w, chain(n, func(k int) string { return repOps[ops[k]] }, nil, nil))
			})
		}

		// Postfix operators.
		for n := 0; n <= Pick(r, 2, 3); n++ {
			nu, np := int64(3), int64(len(postfixes))
			if n == 3 {
				nu, np = 2, 3
			}
			r.Cases(fmt.Sprintf("postfix/%d", n), Power(nRep, n)*Power(nu*np, n+1), func(w *Worker, i int64) {
				up := SeqDigits(i%Power(nu*np, n+1), nu*np, n+1, nil)
				ops := SeqDigits(i/Power(nu*np, n+1), nRep, n, nil)
				checkExpr(w, chain(n, func(k int) string { return repOps[ops[k]] },
					func(k int) []string { return unaries[up[k]%int(nu)] },
					func(k int) []string { return postfixes[up[k]/int(nu)] }))
			})
		}

		// Quantified comparisons: each step is an operator and operand, or a comparison and subquery.
		cmps := []string{"<", "=", "!=", ">=", "and", "or"}
		steps := nRep*3 + int64(len(cmps))*2
		for n := 1; n <= Pick(r, 3, 4); n++ {
			r.Cases(fmt.Sprintf("quantified/%d", n), Power(steps, n)*3, func(w *Worker, i int64) {
				items := append([]string{}, unaries[i%3]...)
				items = append(items, "a")
				for k, d := range SeqDigits(i/3, steps, n, nil) {
					if d < int(nRep)*3 {
						items = append(items, repOps[d%int(nRep)])
						items = append(items, unaries[d/int(nRep)]...)
						items = append(items, operands[k+1])
					} else {
						d -= int(nRep) * 3
						items = append(items, cmps[d%len(cmps)])
						items = append(items, quantifier[d/len(cmps)]...)
					}
				}
				checkExpr(w, items)
			})
		}

		// Trees, with every pair of parentheses kept or dropped.
		for n := 1; n <= 3; n++ {
			bin := repOps
			ts := allTrees(n, bin, []string{"-1", "not", "in", "isnull", "any"})
			r.Cases(fmt.Sprintf("trees/%d", n), int64(len(ts))<<(n-1), func(w *Worker, i int64) {
				var pair, leaf int
				checkExpr(w, ts[i>>(n-1)].items(uint(i&(1<<(n-1)-1)), &pair, &leaf, nil))
			})
		}
		{
			bin := Pick(r, []string{"*", "-", "=", "or"}, repOps)
			ts := allTrees(4, bin, Pick(r, []string{"-1", "not", "in"}, []string{"-1", "not", "in", "any"}))
			r.Cases("trees/4", int64(len(ts))*8, func(w *Worker, i int64) {
				var pair, leaf int
				checkExpr(w, ts[i/8].items(uint(i%8), &pair, &leaf, nil))
			})
			if r.Thorough() {
				ts := allTrees(5, []string{"*", "-", "=", "or"}, []string{"-1", "not", "in"})
				r.Cases("trees/5", int64(len(ts))*16, func(w *Worker, i int64) {
					var pair, leaf int
					checkExpr(w, ts[i/16].items(uint(i%16), &pair, &leaf, nil))
				})
			}
		}

		deepExprs(r, func(w *Worker, text string, e sql.Expr) {
			got, err := parser.NewParser(strings.NewReader(text), "test").ParseExpr()
			if err != nil {
				w.Fail("deep/error", "%s: %s", shorter(text), shorter(err.Error()))
			} else if g, want := dumpAST(got, false), dumpAST(e, false); g != want {
				w.Fail("deep", "%s: got %s; want %s", shorter(text), shorter(g), shorter(want))
			}
		})

		// Wherever the expression is.
		type ce struct{ items []string }
		var exprs []ce
		for n := 0; n <= 2; n++ {
			for i := int64(0); i < Power(nRep, n)*Power(3, n+1); i++ {
				us := SeqDigits(i%Power(3, n+1), 3, n+1, nil)
				ops := SeqDigits(i/Power(3, n+1), nRep, n, nil)
				exprs = append(exprs, ce{chain(n, func(k int) string { return repOps[ops[k]] },
					func(k int) []string { return unaries[us[k]] }, nil)})
			}
		}
		for n := 1; n <= 2; n++ {
			for _, t := range allTrees(n, repOps, []string{"-1", "not", "in", "isnull", "any"}) {
				for m := uint(0); m < 1<<(n-1); m++ {
					var pair, leaf int
					exprs = append(exprs, ce{t.items(m, &pair, &leaf, nil)})
				}
			}
		}
		for _, s := range []string{"f( a + b , c or d ) * e", "f( ) = f( a )", "- f( - a ) || b", "exists (SELECT z) and a",
			"(SELECT z) + a * b", "a * (SELECT z) + b", "not exists (SELECT z) or a", "f( a in (SELECT z) , not b = c )",
			"f( g( a * b + c ) - d * e )"} {
			items := strings.Fields(strings.ReplaceAll(s, "(SELECT z)", "(SELECT_z)"))
			for k := range items {
				items[k] = strings.ReplaceAll(items[k], "_", " ")
			}
			exprs = append(exprs, ce{items})
		}
		nx, nc := int64(len(exprs)), int64(len(exprContexts))
		r.Cases("contexts", nx*nc, func(w *Worker, i int64) {
			x, c := exprs[i/nc], exprContexts[i%nc]
			text := c.prefix + strings.Join(x.items, " ") + c.suffix
			st, err := parser.NewParser(strings.NewReader(text), "test").Parse()
			w.r.trans.Add(1)
			if err != nil {
				w.Fail("context-error", "%s: %s", text, err)
				return
			}
			got := group(c.expr(st))
			r.State(hash64(got))
			compareGroup(w, x.items, ":"+strings.TrimSpace(c.prefix), got)
		})

		// Long chains: every rotation, from every pair of adjacent precedences.
		long := Pick(r, 300, 3000)
		r.Cases("long", nRep*nRep*nRep*2, func(w *Worker, i int64) {
			ds := Digits(i, nRep, nRep, nRep, 2)
			items := chain(long, func(k int) string { return repOps[ds[k%3]] },
				func(k int) []string {
					if ds[3] == 1 && k%4 == 1 {
						return []string{"not"}
					}
					return nil
				}, nil)
			checkExpr(w, items)
		})
	}
}
