// C29: the documented grammar, as a recognizer of tokens, which are those of the reference scanner.
// It knows nothing of the rules which are not in the grammar: that names are different and so on;
// a statement to which they might apply can be rejected.
package main

import (
	"math/bits"
	"strings"

	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// A rec returns the places, of the tokens, where something which starts at one of the places can
// end; the places are a set of bits.
type rec func(ts []refToken, at uint64) uint64

const mostTokens = 62

// one matches one token.
func tok1(match func(t refToken) bool) rec {
	return func(ts []refToken, at uint64) uint64 {
		var to uint64
		for m := at; m != 0; m &= m - 1 {
			if i := bits.TrailingZeros64(m); i < len(ts) && match(ts[i]) {
				to |= 1 << (i + 1)
			}
		}
		return to
	}
}

func isTok(rs ...rune) rec {
	return tok1(func(t refToken) bool {
		for _, r := range rs {
			if t.tok == r {
				return true
			}
		}
		return false
	})
}

// kws matches reserved words, one after another.
func kws(ids ...types.Identifier) rec {
	var rs []rec
	for _, id := range ids {
		id := id
		rs = append(rs, tok1(func(t refToken) bool { return t.tok == token.Reserved && t.id == id }))
	}
	return seq(rs...)
}

func oneKw(ids ...types.Identifier) rec {
	var rs []rec
	for _, id := range ids {
		rs = append(rs, kws(id))
	}
	return alt(rs...)
}

// word matches an identifier which is a given one.
func word(ids ...types.Identifier) rec {
	return tok1(func(t refToken) bool {
		for _, id := range ids {
			if t.tok == token.Identifier && t.id == id {
				return true
			}
		}
		return false
	})
}

func seq(rs ...rec) rec {
	return func(ts []refToken, at uint64) uint64 {
		for _, r := range rs {
			if at == 0 {
				return 0
			}
			at = r(ts, at)
		}
		return at
	}
}

func alt(rs ...rec) rec {
	return func(ts []refToken, at uint64) uint64 {
		var to uint64
		if at != 0 {
			for _, r := range rs {
				to |= r(ts, at)
			}
		}
		return to
	}
}

func opt(rs ...rec) rec {
	r := seq(rs...)
	return func(ts []refToken, at uint64) uint64 { return at | r(ts, at) }
}

func star(rs ...rec) rec {
	r := seq(rs...)
	return func(ts []refToken, at uint64) uint64 {
		all := at
		for at != 0 {
			at = r(ts, at) &^ all
			all |= at
		}
		return all
	}
}

// commas matches one or more, with commas between them.
func commas(rs ...rec) rec {
	r := seq(rs...)
	return seq(r, star(isTok(token.Comma), r))
}

func parens(rs ...rec) rec {
	return seq(isTok(token.LParen), seq(rs...), isTok(token.RParen))
}

func later(r *rec) rec {
	return func(ts []refToken, at uint64) uint64 {
		if at == 0 {
			return 0
		}
		return (*r)(ts, at)
	}
}

var grammar, exprGrammar = makeGrammar()

// makeGrammar returns the recognizers of a statement and of an expression.
func makeGrammar() (rec, rec) {
	name, dot := isTok(token.Identifier), isTok(token.Dot)
	schemaName := seq(name, opt(dot, name))
	tableName := seq(name, opt(dot, name, opt(dot, name)))
	columns := parens(commas(name))
	alias := alt(seq(kws(types.AS), name), name)

	var expr, query rec
	e, subquery := later(&expr), parens(later(&query))
	literal := alt(isTok(token.String, token.Bytes, token.Integer, token.Float),
		oneKw(types.TRUE, types.FALSE, types.NULL))
	boolOp := alt(isTok(token.Equal, token.EqualEqual, token.BangEqual, token.LessGreater, token.Less,
		token.LessEqual, token.Greater, token.GreaterEqual), oneKw(types.AND, types.OR))
	op := alt(boolOp, isTok(token.Plus, token.Minus, token.Star, token.Slash, token.Percent,
		token.LessLess, token.GreaterGreater, token.Ampersand, token.Bar, token.BarBar))
	operand := seq(star(alt(kws(types.NOT), isTok(token.Minus))),
		alt(literal,
			parens(e),
			subquery,
			seq(name, star(dot, name)),
			seq(name, parens(opt(commas(e)))),
			seq(word(types.COUNT), parens(isTok(token.Star))),
			seq(kws(types.EXISTS), subquery)))
	expr = seq(operand, star(alt(
		seq(op, operand),
		seq(boolOp, oneKw(types.ANY, types.SOME, types.ALL), subquery),
		seq(opt(kws(types.NOT)), kws(types.IN), subquery),
		seq(kws(types.IS), opt(kws(types.NOT)), kws(types.NULL)))))

	var fromItem rec
	from := commas(later(&fromItem))
	fromTable := alt(
		seq(tableName, opt(isTok(token.AtSign), name), opt(alias)),
		seq(subquery, alias, opt(columns)),
		parens(from))
	joined := later(&fromItem)
	fromItem = seq(fromTable, star(alt(
		seq(alt(oneKw(types.JOIN), kws(types.INNER, types.JOIN),
			seq(oneKw(types.LEFT, types.RIGHT, types.FULL), opt(kws(types.OUTER)), kws(types.JOIN))),
			joined, alt(seq(kws(types.ON), e), seq(kws(types.USING), columns))),
		seq(kws(types.CROSS, types.JOIN), fromTable))))

	selectRest := seq(
		alt(isTok(token.Star), commas(alt(seq(name, dot, isTok(token.Star)), seq(e, opt(alias))))),
		opt(kws(types.FROM), from),
		opt(kws(types.WHERE), e),
		opt(kws(types.GROUP, types.BY), commas(e)),
		opt(kws(types.HAVING), e),
		opt(kws(types.ORDER, types.BY), commas(name, opt(oneKw(types.ASC, types.DESC)))))
	sel := seq(kws(types.SELECT), selectRest)
	values := seq(kws(types.VALUES), commas(parens(commas(e))))
	showWhat := seq(word(types.COLUMNS, types.CONSTRAINTS), kws(types.FROM), tableName)
	anyName := tok1(func(t refToken) bool {
		return (t.tok == token.Identifier || t.tok == token.Reserved) && t.id != types.COLUMNS && t.id != types.CONSTRAINTS
	})
	show := seq(kws(types.SHOW), alt(showWhat, anyName,
		seq(word(types.SCHEMAS), opt(kws(types.FROM), name)),
		seq(word(types.TABLES), opt(kws(types.FROM), schemaName))))
	query = alt(sel, values, show, seq(kws(types.TABLE), tableName))

	key := parens(commas(name, opt(oneKw(types.ASC, types.DESC))))
	action := alt(kws(types.NO, types.ACTION), oneKw(types.RESTRICT, types.CASCADE),
		kws(types.SET, types.NULL), kws(types.SET, types.DEFAULT))
	onDelete, onUpdate := seq(kws(types.ON, types.DELETE), action), seq(kws(types.ON, types.UPDATE), action)
	actions := opt(alt(seq(onDelete, opt(onUpdate)), seq(onUpdate, opt(onDelete))))
	foreign := seq(kws(types.FOREIGN, types.KEY), columns, kws(types.REFERENCES), tableName, opt(columns), actions)
	constraint := opt(kws(types.CONSTRAINT), name)
	length := opt(parens(tok1(func(t refToken) bool {
		return t.tok == token.Integer && t.num >= 0 && t.num <= types.MaxColumnSize
	})))
	dataType := alt(
		seq(word(types.BINARY, types.VARBINARY, types.BLOB, types.BYTEA, types.BYTES, types.CHAR,
			types.CHARACTER, types.VARCHAR, types.TEXT), length),
		word(types.BOOL, types.BOOLEAN, types.REAL, types.SMALLINT, types.INT2, types.INT, types.INTEGER,
			types.INT4, types.INT8, types.BIGINT),
		seq(word(types.DOUBLE), opt(word(types.PRECISION))))
	column := seq(name, dataType, star(constraint, alt(
		seq(kws(types.DEFAULT), e),
		kws(types.NOT, types.NULL),
		kws(types.PRIMARY, types.KEY),
		kws(types.UNIQUE),
		seq(kws(types.CHECK), parens(e)),
		seq(kws(types.REFERENCES), tableName, opt(parens(name)), actions))))
	tableConstraint := seq(constraint, alt(
		seq(kws(types.PRIMARY, types.KEY), key),
		seq(kws(types.UNIQUE), key),
		seq(kws(types.CHECK), parens(e)),
		foreign))
	ifNotExists := opt(kws(types.IF, types.NOT, types.EXISTS))
	ifExists := opt(kws(types.IF, types.EXISTS))
	create := seq(kws(types.CREATE), alt(
		seq(kws(types.TABLE), ifNotExists, tableName, parens(commas(alt(column, tableConstraint)))),
		seq(opt(kws(types.UNIQUE)), kws(types.INDEX), ifNotExists, name, kws(types.ON), tableName,
			opt(kws(types.USING), word(types.BTREE)), key),
		seq(kws(types.SCHEMA), schemaName),
		seq(kws(types.DATABASE), name, opt(kws(types.WITH), seq(option(name), star(option(name)))))))
	drop := seq(kws(types.DROP), alt(
		seq(kws(types.TABLE), ifExists, commas(tableName), opt(oneKw(types.CASCADE, types.RESTRICT))),
		seq(kws(types.INDEX), ifExists, name, kws(types.ON), tableName),
		seq(kws(types.SCHEMA), ifExists, schemaName),
		seq(kws(types.DATABASE), ifExists, name)))
	alter := seq(kws(types.ALTER, types.TABLE), tableName, commas(alt(
		seq(kws(types.ADD), constraint, foreign),
		seq(kws(types.DROP, types.CONSTRAINT), ifExists, name),
		seq(kws(types.ALTER), opt(kws(types.COLUMN)), name, kws(types.DROP),
			alt(kws(types.DEFAULT), kws(types.NOT, types.NULL))))))
	exprOrDefault := alt(e, kws(types.DEFAULT))
	insert := seq(kws(types.INSERT, types.INTO), tableName, opt(columns), kws(types.VALUES),
		commas(parens(commas(exprOrDefault))))
	update := seq(kws(types.UPDATE), tableName, kws(types.SET),
		commas(name, isTok(token.Equal), exprOrDefault), opt(kws(types.WHERE), e))
	copyFrom := seq(kws(types.COPY), tableName, opt(columns), kws(types.FROM), word(types.STDIN),
		opt(kws(types.DELIMITER), tok1(func(t refToken) bool {
			return t.tok == token.String && len(t.str) == 1
		})))
	set := seq(kws(types.SET), alt(name, oneKw(types.DATABASE, types.SCHEMA)),
		alt(isTok(token.Equal), kws(types.TO)), literal)

	return alt(oneKw(types.BEGIN, types.COMMIT, types.ROLLBACK), kws(types.START, types.TRANSACTION),
		create, drop, alter, insert, update, copyFrom, set, sel, values, show,
		seq(kws(types.DELETE, types.FROM), tableName, opt(kws(types.WHERE), e)),
		seq(kws(types.USE), literal),
		seq(kws(types.EXPLAIN), opt(kws(types.VERBOSE)), sel)), expr
}

func option(name rec) rec {
	return seq(name, opt(isTok(token.Equal)), alt(name, isTok(token.String, token.Bytes, token.Integer, token.Float)))
}

// inGrammar is whether the text is a statement of the grammar, and whether that is decided; and
// whether there might be a rule that it breaks.
func inGrammar(text string) (in, decided, rules bool) {
	ts := refTokens(text)
	if n := len(ts); n > 0 && ts[n-1].tok == token.EOF {
		ts = ts[:n-1]
	}
	for _, t := range ts {
		if t.tok == token.Error {
			return false, true, false
		}
		if t.tok == token.EndOfStatement {
			return false, false, false
		}
	}
	if len(ts) > mostTokens || len(ts) == 0 {
		return false, false, false
	}
	return grammar(ts, 1)&(1<<len(ts)) != 0, true, mightBreak(ts)
}

// mightBreak is whether one of the rules might be broken: there is a name, a kind of constraint, or
// a row more than once.
func mightBreak(ts []refToken) bool {
	seen := map[types.Identifier]bool{}
	for i, t := range ts {
		switch {
		case t.tok == token.Identifier:
		case t.tok == token.Reserved && (t.id == types.PRIMARY || t.id == types.UNIQUE || t.id == types.DEFAULT ||
			t.id == types.NULL || t.id == types.VALUES):
		case t.tok == token.RParen && i+2 < len(ts) && ts[i+1].tok == token.Comma && ts[i+2].tok == token.LParen &&
			seen[types.VALUES]:
			return true
		default:
			continue
		}
		if seen[t.id] {
			return true
		}
		seen[t.id] = true
	}
	return false
}

func judgeGrammar(w *Worker, text string) {
	in, decided, rules := inGrammar(text)
	if !decided {
		return
	}
	if got := accepted(w, text); got && !in {
		w.Fail("grammar/accepted", "accepted: %s", text)
	} else if !got && in && !rules {
		w.Fail("grammar/rejected", "rejected: %s", text)
	}
}

func checkGrammar(r *Run) {
	r.Assume("a statement is in the grammar if the recognizer in c_grammar.go says so of the tokens of the reference scanner")
	everySequence(r, "grammar", Pick(r, 5, 6), func(w *Worker, text string) { judgeGrammar(w, text) })

	var words []string
	for _, s := range vocabulary() {
		if s == "a" || s == "b" {
			s = "name_" + s // not the same as another name
		}
		words = append(words, s)
	}
	items := corpusItems(Pick(r, 60, 1000))
	r.Cases("edits", int64(len(items)), func(w *Worker, i int64) {
		ws := items[i]
		if len(ws) > mostTokens-2 {
			return
		}
		for k := range ws {
			before, after := strings.Join(ws[:k], " "), strings.Join(ws[k+1:], " ")
			judgeGrammar(w, before+" "+after)
			for k2 := k + 1; k2 < len(ws); k2++ {
				judgeGrammar(w, before+" "+ws[k2]+" "+strings.Join(ws[k+1:k2], " ")+" "+ws[k]+" "+
					strings.Join(ws[k2+1:], " "))
			}
			for _, s := range words {
				judgeGrammar(w, before+" "+s+" "+after)
				judgeGrammar(w, before+" "+s+" "+ws[k]+" "+after)
			}
		}
		for _, s := range words {
			judgeGrammar(w, strings.Join(ws, " ")+" "+s)
		}
	})
}
