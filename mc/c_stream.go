// C27: streams of statements.
package main

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
)

type pieceKind uint8

const (
	pGood pieceKind = iota
	pBad
	pEmpty
	pCopy
)

type piece struct {
	kind pieceKind
	text string
	data string // of a COPY
}

// Every bad piece gives exactly one error: what follows the error is tokens.
var pieces = []piece{
	{pGood, "begin", ""},
	{pGood, "select 1", ""},
	{pGood, "select \"a;b\", 'c;d' as f from [g;] where -1 = - h", ""},
	{pGood, "values (1, 'it''s;'), (null, x'3b')", ""},
	{pGood, "insert into t (a) values (1), (default)", ""},
	{pGood, "create table t (a int primary key, b varchar(5) not null)", ""},
	{pGood, "/* ; */ select a -- ;\n from b c", ""},
	{pGood, "update t set a = e'\\';' where b is not null", ""},
	{pGood, "select 'a'\n'b'", ""},
	{pGood, "show tables from s", ""},
	{pEmpty, "", ""},
	{pEmpty, " \n", ""},
	{pEmpty, "/* select 1; */", ""},
	{pEmpty, "--;\n", ""},
	{pBad, "select", ""},
	{pBad, "foo bar baz", ""},
	{pBad, "begin begin", ""},
	{pBad, "select (1 from t", ""},
	{pBad, "create table t (a int, a int) 'x;y' \"z;\"", ""},
	{pBad, "values (1), (1, 2)", ""},
	{pBad, "? select 1", ""},
	{pBad, "select $0", ""},
	{pBad, "\\", ""},
	{pBad, "select 99999999999999999999 , 1 -- ;\n", ""},
	{pBad, "explain", ""},
	{pBad, "\"\"", ""},
	{pBad, "insert into t values (1) /* ; */ 2", ""},
	{pBad, ") copy t from stdin", ""},
	{pCopy, "copy t from stdin", "1\t2\n"},
	{pCopy, "copy s.t (a, b) from stdin delimiter ','", ";'\"/*\n--é\r\n\x00\\\\.\n"},
	{pCopy, "COPY t FROM STDIN delimiter ';' -- x\n", ""},
}

var pieceSeps = []string{";", ";\n", " ; ", ";--c;\n", ";/* ; */", "\n;"}

// A result is what is expected for a statement: its canonical form, or that it is an error or empty.
func (pc piece) result() string {
	switch pc.kind {
	case pEmpty:
		return "<empty>"
	case pBad:
		return "<error>"
	case pCopy:
		d, _, _ := one(pc.text + ";\n")
		return d
	}
	d, _, _ := one(pc.text)
	return d
}

func show(stmt sql.Stmt, err error) string {
	if err != nil {
		if stmt != nil {
			return "<both>"
		}
		return "<error>"
	} else if stmt == nil {
		return "<empty>"
	}
	zeroLine(stmt)
	return dumpAST(stmt, true)
}

// copyData reads the data of a COPY up to and with the line which ends it.
func copyData(rr io.RuneReader) (string, error) {
	var sb strings.Builder
	for {
		r, _, err := rr.ReadRune()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteRune(r)
		if s := sb.String(); r == '\n' && (s == "\\.\n" || strings.HasSuffix(s, "\n\\.\n")) {
			return s, nil
		}
	}
}

// stream checks that the pieces with the separator give what they give alone.
func stream(w *Worker, results []string, ds []int, sep string, last int) {
	streamOf(w, pieces, results, ds, sep, last)
}

// short is the end of a text which is long.
func short(text string) string {
	if len(text) > 400 {
		return fmt.Sprintf("(%d bytes)...", len(text)) + text[len(text)-400:]
	}
	return text
}

func streamOf(w *Worker, pieces []piece, results []string, ds []int, sep string, last int) {
	var sb strings.Builder
	for k, d := range ds {
		pc := pieces[d]
		sb.WriteString(pc.text)
		if pc.kind == pCopy {
			sb.WriteString([]string{";\n", "; skipped ' to the end of line\n", "\n;\n"}[len(sep)%3])
			sb.WriteString(pc.data + "\\.\n")
		} else if k == len(ds)-1 {
			sb.WriteString([]string{"", ";", " \n;\n"}[last])
		} else {
			sb.WriteString(sep)
		}
	}
	text := sb.String()

	p := parser.NewParser(strings.NewReader(text), "test")
	for k, d := range ds {
		pc := pieces[d]
		if k == len(ds)-1 && last == 0 && pc.kind == pEmpty {
			break // Nothing is left.
		}
		stmt, err := p.Parse()
		w.r.trans.Add(1)
		if err == io.EOF {
			w.Fail("ended", "%q: end of file at statement %d", short(text), k)
			return
		}
		if got := show(stmt, err); got != results[d] {
			w.Fail("statement", "%q: statement %d:\n got %s (%v)\nwant %s", short(text), k, short(got), err, short(results[d]))
			return
		}
		if pc.kind == pCopy {
			data, err := copyData(stmt.(*sql.Copy).From)
			if err != nil || data != pc.data+"\\.\n" {
				w.Fail("data", "%q: got data %q, %v; want %q", short(text), short(data), err, short(pc.data+"\\.\n"))
				return
			}
		}
	}
	for k := 0; k < 2; k++ {
		if stmt, err := p.Parse(); err != io.EOF || stmt != nil {
			w.Fail("more", "%q: got %s (%v) after the last statement", short(text), show(stmt, err), err)
		}
	}
}

// hasError is whether part of the text is not a token.
func hasError(text string) bool {
	rts := refTokens(text)
	return rts[len(rts)-1].tok == token.Error
}

func init() {
	checks["C27"] = func(r *Run) {
		var results []string
		for _, pc := range pieces {
			results = append(results, pc.result())
			r.Sample(map[string]any{"piece": pc.text, "alone": pc.result()})
		}
		for d, pc := range pieces {
			if (pc.kind == pGood || pc.kind == pCopy) && strings.HasPrefix(results[d], "<") {
				r.Cases("alone", 1, func(w *Worker, i int64) {
					w.Fail("alone", "%q: %s", pc.text, results[d])
				})
			}
		}

		np, ns := int64(len(pieces)), int64(len(pieceSeps))
		for n := 1; n <= Pick(r, 3, 4); n++ {
			// Sequences of the length with every separator and end.
			r.Cases(fmt.Sprintf("streams/%d", n), Power(np, n)*ns*3, func(w *Worker, i int64) {
				last := int(i % 3)
				sep := pieceSeps[i/3%ns]
				stream(w, results, SeqDigits(i/3/ns, np, n, nil), sep, last)
			})
			if n < 3 {
				for i := int64(0); i < Power(np, n); i++ {
					r.State(hash64(fmt.Sprint(SeqDigits(i, np, n, nil))))
				}
			}
		}
		if !r.Thorough() {
			r.Cases("streams/4", Power(np, 4), func(w *Worker, i int64) {
				stream(w, results, SeqDigits(i, np, 4, nil), pieceSeps[i%ns], 1)
			})
		}

		// Long streams: two pieces in turn, and pieces after many of one.
		r.Cases("long/turns", np*np*ns*3, func(w *Worker, i int64) {
			ds := make([]int, Pick(r, 60, 600))
			for k := range ds {
				ds[k] = SeqDigits(i/3/ns, np, 2, nil)[k%2]
			}
			stream(w, results, ds, pieceSeps[i/3%ns], int(i%3))
		})
		r.Cases("long/run", np*np*3, func(w *Worker, i int64) {
			d := Digits(i, np, np, 3)
			var ds []int
			for k := 0; k < []int{40, 130, Pick(r, 1000, 3000)}[d[2]]; k++ {
				ds = append(ds, d[0])
			}
			stream(w, results, append(ds, d[1], d[0], d[1]), pieceSeps[d[1]%len(pieceSeps)], 1)
		})

		// Pieces which are big, with each other and with others.
		var bigs []piece
		for _, n := range []int{1000, 4095, 4096, 4097, Pick(r, 20000, 300000)} {
			rep := func(s string) string { return strings.Repeat(s, n) }
			bigs = append(bigs, piece{pEmpty, "/*" + rep("; ") + "*/", ""}, piece{pEmpty, "-- ;" + rep("x") + "\n", ""},
				piece{pEmpty, rep("\n"), ""}, piece{pGood, "select '" + rep(";") + "', '" + rep("''") + "'", ""},
				piece{pGood, "/*" + rep("x") + "*/ begin --" + rep(";") + "\n", ""},
				piece{pBad, "select " + rep("a "), ""}, piece{pBad, "x " + rep("'a' "), ""}, piece{pBad, "begin " + rep("( "), ""},
				piece{pCopy, "copy t from stdin", rep(";'\n")}, piece{pCopy, "copy t from stdin", rep("\\.") + "\n"})
		}
		nb := len(bigs)
		bigs = append(bigs, pieces...)
		var bigResults []string
		for _, pc := range bigs {
			bigResults = append(bigResults, pc.result())
		}
		r.Cases("big", int64(nb*len(bigs)*3), func(w *Worker, i int64) {
			d := Digits(i, int64(nb), int64(len(bigs)), 3)
			ds := []int{d[0], d[1]}
			if d[2] > 0 {
				ds = []int{d[1], d[0], d[1]}
			}
			streamOf(w, bigs, bigResults, ds, pieceSeps[d[1]%len(pieceSeps)], d[2])
		})

		// Any sequence of tokens is one statement or one error, whatever is before and after it.
		everySequence(r, "sequences", Pick(r, 4, 5), func(w *Worker, text string) {
			ps := parseAll(text+" ;", 4)
			if len(ps) > 1 {
				return // An error, and then more which is not a token, or a COPY.
			}
			want := "<nothing>"
			if len(ps) == 1 {
				want = show(ps[0].stmt, ps[0].err)
				if ps[0].stmt != nil && isCopy(ps[0].stmt) {
					return
				}
			}
			if strings.HasSuffix(text, ";") {
				return
			}
			for _, lead := range []string{"begin;", "begin begin;", "?;"} {
				p := parser.NewParser(strings.NewReader(lead+text+";commit"), "test")
				p.Parse()
				got := show(p.Parse())
				if got != want {
					w.Fail("lead", "%q: after %q got %s; want %s", text, lead, got, want)
				}
				stmt, err := p.Parse()
				if _, ok := stmt.(*sql.Commit); !ok || err != nil {
					w.Fail("follow", "%q: followed by %s (%v); want COMMIT", text, show(stmt, err), err)
				}
				if stmt, err := p.Parse(); err != io.EOF {
					w.Fail("end", "%q: followed by %s (%v); want end of file", text, show(stmt, err), err)
				}
			}
		})

		// Every word in what is left of a bad statement, after every kind of space, and in any place.
		bads := []string{"select", "foo bar baz", "begin begin", "values (1), (1, 2)", "create table t (a int, a int)",
			"insert into t values (1) 2", "copy t from", "select (1 from t", "? "}
		spaces := []string{" ", "\n", "\n\n  ", "\r\n", "/**/", "--\n", "\n/*\n*/\n"}
		var words []string
		for s := range reservedWords {
			words = append(words, s)
		}
		words = append(words, vocabulary()...)
		for _, s := range nameKeywords {
			words = append(words, s)
		}
		sort.Strings(words)
		tails := []string{"", " x", " t (a)", "\nselect 1", " 'x'\nbegin"}
		nw := int64(len(words))
		r.Cases("words", nw*int64(len(bads)*len(spaces)*len(tails)), func(w *Worker, i int64) {
			d := Digits(i, nw, int64(len(bads)), int64(len(spaces)), int64(len(tails)))
			word := words[d[0]]
			if i%2 == 0 {
				word = strings.ToLower(word)
			}
			text := bads[d[1]] + spaces[d[2]] + word + tails[d[3]]
			if strings.Contains(word, ";") || hasError(word) {
				return
			}
			alone := parseAll(text, 3)
			if len(alone) > 0 && alone[0].stmt != nil && isCopy(alone[0].stmt) {
				return
			}
			pieces := strings.Count(text, "?") // Each is an error.
			if pieces == 0 && len(alone) != 1 {
				w.Fail("words", "%q: got %v; want one statement or error", text, alone)
				return
			}
			ps := parseAll("begin;"+text+";commit;"+text, 12)
			w.r.trans.Add(int64(len(ps)))
			n := len(alone)
			if len(ps) != 2+2*n {
				w.Fail("words", "%q: between others: got %d statements and errors; want %d", text, len(ps), 2+2*n)
				return
			}
			for k := range alone {
				want := show(alone[k].stmt, alone[k].err)
				for _, at := range []int{1 + k, 2 + n + k} {
					if got := show(ps[at].stmt, ps[at].err); got != want {
						w.Fail("words", "%q: between others: got %s; want %s", text, got, want)
					}
				}
			}
			if _, ok := ps[0].stmt.(*sql.Begin); !ok {
				w.Fail("words", "%q: the statement before it: got %s", text, show(ps[0].stmt, ps[0].err))
			}
			if _, ok := ps[1+n].stmt.(*sql.Commit); !ok {
				w.Fail("words", "%q: the statement after it: got %s", text, show(ps[1+n].stmt, ps[1+n].err))
			}
		})

		// Every statement of the grammar, before and after others.
		everyStmt(r, 1, func(w *Worker, f *family, g *gen, want sql.Stmt, i, n int64) {
			if isCopy(want) {
				return
			}
			text := render(g.items, 0)
			alone := parseAll(text, 2)
			if len(alone) != 1 || alone[0].err != nil {
				return // C26
			}
			exp := show(alone[0].stmt, nil)
			ps := parseAll("select from;"+text+";"+text+";"+text+" 'x' x;"+text, 10)
			if len(ps) != 5 || ps[0].err == nil || ps[3].err == nil {
				w.Fail("grammar", "%s: in a stream: %v", text, ps)
				return
			}
			for _, k := range []int{1, 2, 4} {
				if got := show(ps[k].stmt, ps[k].err); got != exp {
					w.Fail("grammar", "%s: in a stream got %s; want %s", text, got, exp)
				}
			}
		})

		// What is on the line of a COPY is skipped, and the data is what it is, whatever the characters.
		var chars []rune
		for c := rune(0); c < 128; c++ {
			chars = append(chars, c)
		}
		chars = append(chars, 0x80, 0x85, 0xA0, 0xFF, 0x131, 0x2028, 0x2029, 0x3000, 0xFEFF, 0xFFFD, 0x10FFFF)
		nc := int64(len(chars) + 1)
		pair := func(a, b int) string {
			s := ""
			for _, k := range []int{a, b} {
				if k > 0 {
					s += string(chars[k-1])
				}
			}
			return s
		}
		r.Cases("characters", 2*nc*nc, func(w *Worker, i int64) {
			ds := Digits(i, 2, nc, nc)
			if ds[1] == 0 && ds[2] > 0 {
				return
			}
			var skip, data string
			if txt := pair(ds[1], ds[2]); ds[0] == 0 {
				if strings.ContainsRune(txt, '\n') {
					return
				}
				skip, data = txt, "d\n"
			} else {
				skip, data = "", txt
			}
			const after = "begin;x;commit"
			text := "copy t from stdin;" + skip + "\n" + data + after
			p := parser.NewParser(strings.NewReader(text), "test")
			stmt, err := p.Parse()
			cp, ok := stmt.(*sql.Copy)
			if !ok {
				w.Fail("copy", "%q: %s (%v)", text, show(stmt, err), err)
				return
			}
			for n, want := range []rune(data) {
				if r, _, err := cp.From.ReadRune(); err != nil || r != want {
					w.Fail("data", "%q: character %d of the data: %q, %v; want %q", text, n, r, err, want)
					return
				}
			}
			w.r.trans.Add(1)
			for n, want := range []string{"*sql.Begin", "error", "*sql.Commit", "EOF"} {
				stmt, err := p.Parse()
				got := fmt.Sprintf("%T", stmt)
				if err == io.EOF {
					got = "EOF"
				} else if err != nil {
					got = "error"
				}
				if got != want {
					w.Fail("resume", "%q: after the data, statement %d: got %s (%v); want %s", text, n, got, err, want)
					return
				}
			}
		})

		// The reader of the data of a COPY may stop anywhere: the rest is what is parsed.
		datas := []string{"begin;select 1;", "x;begin; y z;\\", "é\n;;commit;\r\n", "copy t from stdin;\nselect 1;\n"}
		leads := []string{"copy t from stdin;\n", "begin;copy t (a) from stdin delimiter ',';\n", "copy t from stdin -- c\n; 'x\n"}
		r.Cases("partial", int64(len(datas)*len(leads))*60, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(datas)), int64(len(leads)), 60)
			data := []rune(datas[ds[0]])
			k := ds[2]
			if k > len(data) {
				return
			}
			p := parser.NewParser(strings.NewReader(leads[ds[1]]+string(data)), "test")
			stmt, err := p.Parse()
			if _, ok := stmt.(*sql.Begin); ok {
				stmt, err = p.Parse()
			}
			cp, ok := stmt.(*sql.Copy)
			if !ok {
				w.Fail("copy", "%q: %s (%v)", leads[ds[1]], show(stmt, err), err)
				return
			}
			for n := 0; n < k; n++ {
				r, _, err := cp.From.ReadRune()
				if err != nil || r != data[n] {
					w.Fail("data", "%q: character %d of the data: %q, %v", string(data), n, r, err)
					return
				}
			}
			want := parseAll(string(data[k:]), 20)
			for _, pr := range want {
				stmt, err := p.Parse()
				if got := show(stmt, err); got != show(pr.stmt, pr.err) {
					w.Fail("resume", "%q after %d characters of data: got %s; want %s", string(data), k, got,
						show(pr.stmt, pr.err))
				}
			}
			if _, err := p.Parse(); err != io.EOF {
				w.Fail("resume", "%q after %d characters of data: more than %d statements", string(data), k,
					len(want))
			}
		})
	}
}
