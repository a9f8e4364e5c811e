// C24: every input text gives statements and errors and then the end of file.
package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
)

// tooMuch stops a parser which reads without end. It is a runtime.Error because the parser treats
// any other panic as a bad statement.
type tooMuch struct{}

func (tooMuch) Error() string { return "the input was read without end" }
func (tooMuch) RuntimeError() {}

// A countReader counts what is read of a text.
type countReader struct {
	text  []rune
	pos   int
	reads int
	limit int
	eof   bool // the end of the input has been reported
}

func newCountReader(text string) *countReader {
	rs := []rune(text)
	return &countReader{text: rs, limit: 2*len(rs) + 2000}
}

func (cr *countReader) ReadRune() (rune, int, error) {
	cr.reads++
	if cr.reads > cr.limit {
		panic(tooMuch{})
	}
	if cr.pos >= len(cr.text) {
		cr.eof = true
		return 0, 0, io.EOF
	}
	r := cr.text[cr.pos]
	cr.pos++
	return r, 1, nil
}

// emptyAt is whether the statement which ends at the end of the text is empty. It is not known if
// the text contains what is not a token.
func emptyAt(text string) (bool, bool) {
	rts := refTokens(text)
	n := len(rts)
	if n == 0 || rts[n-1].tok != token.EOF {
		return false, false
	}
	if n < 2 || rts[n-2].tok != token.EndOfStatement {
		return false, true
	}
	return n == 2 || rts[n-3].tok == token.EndOfStatement, true
}

// drive parses all of a text.
func drive(w *Worker, text string) {
	cr := newCountReader(text)
	p := parser.NewParser(cr, "test")
	copied := false
	for calls := 0; ; calls++ {
		if calls > len(cr.text)+2 {
			w.Fail("calls", "%.300q: not at the end of file after %d calls", text, calls)
			return
		}
		stmt, err := p.Parse()
		w.r.trans.Add(1)
		if err == io.EOF {
			if stmt != nil {
				w.Fail("both", "%.300q: a statement with the end of file", text)
			}
			if cr.pos < len(cr.text) {
				w.Fail("early", "%.300q: end of file after %d of %d characters", text, cr.pos, len(cr.text))
			}
			break
		}
		if err != nil && stmt != nil {
			w.Fail("both", "%.300q: %s and error %s", text, stmt, err)
		} else if err == nil && stmt == nil && !copied && len(cr.text) < 3000 {
			if empty, ok := emptyAt(string(cr.text[:cr.pos])); ok && !empty {
				w.Fail("nothing", "%.300q: no statement and no error after %d characters", text, cr.pos)
			}
		}
		if stmt != nil && isCopy(stmt) {
			copied = true
		}
	}
	for k := 0; k < 3; k++ {
		if stmt, err := p.Parse(); err != io.EOF || stmt != nil {
			w.Fail("again", "%.300q: %v, %v after the end of file", text, stmt, err)
		}
	}
	if cr.reads > len(cr.text)+40 {
		w.Fail("reads", "%.300q: %d reads of %d characters", text, cr.reads, len(cr.text))
	}
}

// The vocabulary: every reserved word and every kind of token.
func vocabulary() []string {
	var ws []string
	for s := range reservedWords {
		ws = append(ws, strings.ToLower(s))
	}
	sort.Strings(ws)
	return append(ws, vocabRest...)
}

var vocabRest = []string{
	"a", "b", "\"Q\"", "stdin", "columns", "tables", "count", "any_", "text",
	"'s'", "''", "','", "1", "0", "-1", "99999", "1.5", "x'00'", "b'a'", "$1",
	"(", ")", ",", ".", "@", ";", "+", "-", "*", "/", "%", "=", "<", ">", "&", "|", "!",
	"||", "<<", ">>", "<=", ">=", "<>", "!=", "==",
	"$0", "?", "99999999999999999999", "\"\"",
}

// Of these only the first can be in a prefix which is extended.
var vocabSame = [][]string{
	{"a", "\"Q\""},
	{"1", "99999", "1.5", "x'00'", "b'a'", "$1", "'s'", "true", "false", "null", "0", "-1", "''", "','"},
	{"+", "*", "/", "%", "=", "<", ">", "&", "|", "||", "<<", ">>", "<=", ">=", "<>", "!=", "==", "and", "or", "-"},
}

// viable is whether more text can make a statement (or the start of one) of what is a prefix.
func viable(prefix string) bool {
	cr := newCountReader(prefix + " ")
	p := parser.NewParser(cr, "test")
	_, err := p.Parse()
	return (err == nil || cr.eof) && err != io.EOF
}

// everySequence calls fn for every sequence of tokens up to the length given which is a viable prefix
// followed by one more token of the vocabulary.
func everySequence(r *Run, scope string, length int, fn func(w *Worker, text string)) {
	words := vocabulary()
	nw := int64(len(words))
	same := map[string]int{} // word to class
	for c, ws := range vocabSame {
		for _, s := range ws[1:] {
			same[s] = c + 1
		}
	}
	// At least two spellings at each place where a value or an operator can be.
	for _, s := range []string{"'s'", "-", "\"Q\""} {
		delete(same, s)
	}

	prefixes := []string{""}
	for d := 1; d <= length; d++ {
		var mu sync.Mutex
		var next []string
		cur := prefixes
		r.Cases(fmt.Sprintf("%s/%d", scope, d), int64(len(cur))*nw, func(w *Worker, i int64) {
			s := words[i%nw]
			text := cur[i/nw] + s
			fn(w, text)
			if d < length && same[s] == 0 && s != ";" && viable(text) {
				w.r.State(hash64(text))
				mu.Lock()
				next = append(next, text+" ")
				mu.Unlock()
			}
		})
		// The order does not depend on the order in which the workers ran.
		sort.Strings(next)
		prefixes = next
		for k := 1; k < len(prefixes); k++ {
			if prefixes[k] == prefixes[k-1] {
				prefixes = append(prefixes[:k], prefixes[k+1:]...)
				k--
			}
		}
	}
}

// corpusItems returns the tokens of statements of every family: some of those with up to one choice
// other than the first, or other than the last.
func corpusItems(max int) [][]string {
	var all [][]string
	for _, f := range families {
		for _, flip := range []bool{false, true} {
			vecs := enumerate(1, flip, f.build)
			step := 1
			if len(vecs) > max {
				step = (len(vecs) + max - 1) / max
			}
			for k := 0; k < len(vecs); k += step {
				g, _ := f.generate(vecs[k], flip, nil)
				var ws []string
				for _, it := range g.items {
					ws = append(ws, it.text)
				}
				all = append(all, ws)
			}
		}
	}
	return all
}

// nests are the constructs which can contain themselves.
var nests = [][3]string{ // opening, innermost, closing
	{"(", "1", ")"},
	{"- ", "1", ""},
	{"not ", "true", ""},
	{"-(", "1", ")"},
	{"1 + ", "1", ""},
	{"1 * (2 - ", "1", ")"},
	{"f(", "1", ")"},
	{"f(1, ", "1", ")"},
	{"(select ", "1", ")"},
	{"exists(select ", "1", ")"},
	{"1 in (select ", "1", ")"},
	{"1 = any (values (", "1", "))"},
	{"(", "1", "is null)"},
	{"", "1", " is not null"},
	{"", "1", " + 1"},
	{"a in (", "1", ", 2)"},
}

var nestStmts = [][3]string{
	{"select * from (", "select 1", ") as t"},
	{"select * from (select * from t join (", "values (1)", ") as u on true) as v"},
	{"explain ", "select 1", ""},
	{"select * from (", "a cross join b", ")"},
	{"select * from a join (", "b", ") on true"},
	{"insert into t ", "select 1", ""},
	{"insert into t select * from (", "show tables", ") as x"},
}

func init() {
	checks["C24"] = func(r *Run) {
		r.Assume("Memory is only bounded by the checker's limit for the process, and nesting is checked up to the depths in DESIGN.md.")
		r.Sample("every sequence of: " + strings.Join(vocabulary(), " "))

		totalExprs(r)
		everySequence(r, "sequences", Pick(r, 5, 7), func(w *Worker, text string) {
			drive(w, text)
			drive(w, text+" ; commit")
		})

		for _, a := range alphabets {
			a.run(r, "chars", a.quick-1, a.long-1, drive)
		}
		lead := alphabet{"statements", []string{"select ", "create table t (", "values (1", "insert into t "}, []string{"", ")", ";"},
			[]string{"a", "1", "'s'", "(", ")", ",", ".", ";", "-", "*", "=", "\"", "/*", "--", "\n", " "}, 4, 5}
		lead.run(r, "chars", lead.quick, lead.long, drive)

		// Truncations and changes of one token of statements.
		items := corpusItems(Pick(r, 12, 60))
		r.Cases("truncated", int64(len(items)), func(w *Worker, i int64) {
			text := []rune(strings.Join(items[i], " "))
			for k := range text {
				drive(w, string(text[:k]))
				drive(w, string(text[:k])+";begin")
				drive(w, string(text[k:]))
			}
		})
		words := vocabulary()
		items = corpusItems(Pick(r, 1, 12))
		r.Cases("edited", int64(len(items)), func(w *Worker, i int64) {
			ws := items[i]
			for k := range ws {
				before, after := strings.Join(ws[:k], " "), strings.Join(ws[k+1:], " ")
				drive(w, before+" "+after)
				for k2 := k + 1; k2 < len(ws); k2++ {
					drive(w, before+" "+ws[k2]+" "+strings.Join(ws[k+1:k2], " ")+" "+ws[k]+" "+
						strings.Join(ws[k2+1:], " "))
				}
				for _, s := range words {
					drive(w, before+" "+s+" "+after)
					drive(w, before+" "+s+" "+ws[k]+" "+after)
				}
			}
		})

		// Tokens which are long, in place of each token.
		var longTokens []string
		for _, n := range Pick(r, []int{9, 17, 25, 33, 65, 129, 1025}, []int{8, 9, 16, 17, 24, 25, 32, 33, 40, 64, 65, 80, 100, 128, 129, 255, 257, 1025, 5000}) {
			for _, f := range [][3]string{{"'", "x", "'"}, {"'", "é", "'"}, {"'", " ", "'"}, {"'", "\n", "'"}, {"' ", "x", "'"}, {"'x ", "x", "'"},
				{`"`, "x", `"`}, {`"`, "é", `"`}, {"", "x", ""}, {"", "é", ""}, {"", "9", ""}, {"0.", "9", ""}, {"9", "9", ".9"}, {"b'", "x", "'"},
				{"x'", "00", "'"}, {"'", "''", "'"}, {"e'", "\\n", "'"}, {"/*", "*", "*/"}, {"--", "x", "\n"}, {"'", "x", ""}, {"", "(", ""}} {
				longTokens = append(longTokens, f[0]+strings.Repeat(f[1], n)+f[2])
			}
		}
		r.Cases("long-tokens", int64(len(items)), func(w *Worker, i int64) {
			ws := items[i]
			for k := range ws {
				before, after := strings.Join(ws[:k], " "), strings.Join(ws[k+1:], " ")
				for _, s := range longTokens {
					drive(w, before+" "+s+" "+after+"; begin")
				}
			}
		})

		// Nesting.
		deep := Pick(r, []int{1, 2, 3, 5, 10, 100, 1000, 5000}, []int{1, 2, 3, 4, 5, 8, 16, 33, 64, 100, 333, 1000, 5000, 20000})
		nd := int64(len(deep))
		r.Cases("nested", int64(len(nests)+len(nestStmts))*nd, func(w *Worker, i int64) {
			k, n := int(i/nd), deep[i%nd]
			ns, head, tail := [3]string{}, "select ", ""
			if k < len(nests) {
				ns = nests[k]
			} else {
				ns, head = nestStmts[k-len(nests)], ""
			}
			open, end := strings.Repeat(ns[0], n), strings.Repeat(ns[2], n)
			for _, text := range []string{head + open + ns[1] + end + tail, head + open, head + open + ns[1],
				head + open + ns[1] + end + ns[2], head + open + ns[1] + end + " ; begin", head + ns[1] + end} {
				drive(w, text)
			}
		})
		r.Cases("long", 12, func(w *Worker, i int64) {
			n := Pick(r, 20000, 300000)
			drive(w, []string{
				strings.Repeat(";", n), strings.Repeat(" ", n), strings.Repeat("a", n) + ";",
				"select '" + strings.Repeat("x", n) + "'", "select \"" + strings.Repeat("x", n) + "\"",
				"select 1" + strings.Repeat(", 1", n), "--" + strings.Repeat("-", n), "/*" + strings.Repeat("*", n),
				strings.Repeat("begin;", n), strings.Repeat("? ;", n), strings.Repeat("? ", n),
				"select " + strings.Repeat("9", n),
			}[i])
		})
	}
}

// one parses a text which is one statement: the canonical form of the statement, or that it is bad.
func one(text string) (string, sql.Stmt, bool) {
	ps := parseAll(text, 2)
	if len(ps) != 1 {
		return fmt.Sprintf("<%d results>", len(ps)), nil, false
	}
	if ps[0].err != nil {
		return "<error>", nil, true
	} else if ps[0].stmt == nil {
		return "<empty>", nil, true
	}
	zeroLine(ps[0].stmt)
	return dumpAST(ps[0].stmt, true), ps[0].stmt, true
}

// expressionWords are tokens of each kind which are part of an expression or end it.
var expressionWords = []string{"a", "\"Q\"", "count", "1", "2.5", "'s'", "b'b'", "true", "null", "-", "+", "*", "/", "||", "<", "==", "&",
	"not", "and", "or", "in", "is", "exists", "any", "all", "(", ")", ",", ".", "(select 1)", "(table t)", ";", "select", "values", "as",
	"asc", "?", "@", "$1", "'unended"}

// totalExprs parses every sequence of words as an expression.
func totalExprs(r *Run) {
	nw := int64(len(expressionWords))
	for n := 0; n <= Pick(r, 4, 5); n++ {
		n := n
		r.Cases(fmt.Sprintf("expressions/%d", n), Power(nw, n), func(w *Worker, i int64) {
			var ws []string
			for _, k := range SeqDigits(i, nw, n, nil) {
				ws = append(ws, expressionWords[k])
			}
			text := strings.Join(ws, " ")
			cr := newCountReader(text)
			p := parser.NewParser(cr, "test")
			e, err := p.ParseExpr()
			w.r.trans.Add(1)
			if (e == nil) == (err == nil) {
				w.Fail("expr", "%q: got %v, %v", text, e, err)
				return
			}
			ts := refTokens(text)
			for k, t := range ts {
				if t.tok == token.EOF || t.tok == token.Error {
					ts = ts[:k]
					break
				}
			}
			ends := exprGrammar(ts, 1)
			if err == nil && ends == 0 {
				w.Fail("expr/accepted", "%q: got %s", text, e)
			} else if err != nil && ends&(1<<len(ts)) != 0 && !strings.ContainsAny(text, "?$") && !strings.Contains(text, "'u") {
				w.Fail("expr/rejected", "%q: got %s", text, err)
			}
			// The end stays the end.
			for k := 0; ; k++ {
				if _, err := p.Parse(); err == io.EOF {
					break
				}
				if k > len(ws)+2 {
					w.Fail("expr/end", "%q: not at the end after %d calls", text, k)
					return
				}
			}
		})
	}
}
