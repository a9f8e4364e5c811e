// C23 and C33: tokens and where they are.
package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// checkScan scans s with one context for each token, and again with one context for every token.
func checkScan(w *Worker, s string) {
	want := refTokens(s)
	got, raw := scanAll(s)
	w.r.trans.Add(int64(len(got)))
	n := len(want)
	if len(got) != n {
		w.Fail("tokens", "%q: got %s; want %s", s, showTokens(got), showTokens(want))
		return
	}
	for i := range want {
		if !sameToken(got[i], want[i]) {
			w.Fail("token:"+kind(want[i].tok), "%q: token %d: got %s; want %s", s, i, showTokens(got),
				showTokens(want))
			return
		}
		if !sameToken(fromCtx(raw[i]), want[i]) {
			w.Fail("changed", "%q: token %d changed after it was returned: got %s; want %s", s, i,
				fromCtx(raw[i]), want[i])
			return
		}
	}
	if want[n-1].tok == token.Error && raw[n-1].Error == nil {
		w.Fail("no-error", "%q: an error token without an error", s)
	}

	// One context for every token: nothing of an earlier token remains.
	var sc scanner.Scanner
	var sctx scanner.ScanCtx
	sc.Init(strings.NewReader(s), "test")
	for i := range want {
		sc.Scan(&sctx)
		if !sameToken(fromCtx(&sctx), want[i]) {
			w.Fail("reused:"+kind(want[i].tok), "%q: reused context: token %d: got %s; want %s", s, i,
				fromCtx(&sctx), want[i])
			return
		}
	}
}

func kind(t rune) string {
	switch t {
	case token.Identifier, token.Reserved:
		return "identifier"
	case token.String:
		return "string"
	case token.Bytes:
		return "bytes"
	case token.Integer, token.Float:
		return "number"
	case token.Parameter:
		return "parameter"
	case token.Error:
		return "error"
	case token.EOF:
		return "eof"
	}
	return "operator"
}

type alphabet struct {
	name           string
	prefix, suffix []string // each combination
	chars          []string
	quick, long    int // length of the longest string
}

var alphabets = []alphabet{
	{"mixed", []string{""}, []string{""},
		[]string{"a", "E", "x", "_", "1", "0", ".", "-", "+", "/", "*", "'", "\"", ";", "\n", " ", "$", "=", "(", ")"}, 5, 6},
	{"operators", []string{"", "a", "("}, []string{"", "1"},
		[]string{"+", "-", "*", "/", "%", "=", "<", ">", "&", "|", "!", "1", " ", "@", ","}, 4, 6},
	{"numbers", []string{"", "a ", "(", "+", "1 "}, []string{"", " ", ";", "a"},
		[]string{"0", "9", "1", ".", "-", "+", "e", " ", "$", "٣"}, 4, 6},
	{"strings", []string{"'", "e'", "b'", "x'", ""}, []string{"", "'", "';a"},
		[]string{"'", "a", "é", "\n", "\r", " ", "\\", "-", "\xff", "0", "\u2028"}, 5, 6},
	{"escapes", []string{"e'", "E'", "b'", "'"}, []string{"'", ""},
		[]string{"\\", "x", "u", "U", "0", "4", "7", "8", "f", "D", "n", "'", "\n"}, 5, 6},
	{"hex", []string{"x'", "X'"}, []string{"'", "", "' 'a'"}, []string{"0", "9", "a", "F", "g", "'", " ", "\n"}, 5, 7},
	{"unicode", []string{"e'\\u", "e'\\U0010", "e'\\U0000", "b'\\u", "e'\\U0011", "E'\\u00"}, []string{"'", "a'"},
		[]string{"0", "d", "F", "8", "g", "'"}, 5, 6},
	{"identifiers", []string{"", "a", "\"", "`", "["}, []string{"", " ", "]"},
		[]string{"a", "Z", "_", "$", "1", "é", "\"", "[", "]", "`", " ", "ǅ"}, 4, 6},
	{"comments", []string{"", "a", "1"}, []string{"", "*/b", "\nb"},
		[]string{"-", "/", "*", "\n", "a", "'", " ", ";", "1"}, 5, 6},
	{"spaces", []string{"a", "'a'"}, []string{"b", "'b'"},
		[]string{" ", "\t", "\n", "\r", "\f", "\v", "\u00a0", "\u3000", "\x00", "\u200b"}, 4, 5},
}

// contexts checks every pair of a character (or none) and one of those with a meaning, in every place
// where a character may be.
func contexts(r *Run, fn func(w *Worker, s string)) {
	places := [][2]string{{"--", "\na"}, {"a -- b", "\n1"}, {"/*", "*/a"}, {"1/* b", "c*/a"}, {"/**", "**/a"}, {"'", "'a"},
		{"'a", "b' 'c'"}, {"'a'\n'", "'"}, {"'a'", "'b'"}, {"e'", "'a"}, {"e'\\", "'a"}, {"e'\\0", "1'a"}, {"e'\\x", "a'b"},
		{"e'\\x4", "'b"}, {"e'\\u00", "6'b"}, {"b'", "'a"}, {"b'\\", "'a"}, {"x'", "'a"}, {"x'4", "'a"}, {"\"", "\"a"},
		{"\"a", "b\" c"}, {"[", "]a"}, {"`", "`a"}, {"a", "b"}, {"1", "a"}, {"1.", "a"}, {"1.5", "1"}, {"$", "1"}, {"$1", "a"}, {"-", "1"},
		{"a-", "1"}, {"<", ">"}, {"|", "|"}, {"!", "="}, {"/", "*a*/"}, {"e", "'a'"}, {"x", "'00'"}, {"", "a"}, {";", ";"}, {"(", ")"}}
	seconds := []string{"", "a", "1", "'", "\"", "]", "`", "\\", "\n", "\r", "-", "*", "/", "=", ">", "|", ".", "$", ";", "(", " ",
		"\x00", "\xff", "é"}
	var chars []string
	for c := rune(0); c < 0x180; c++ {
		chars = append(chars, string(c))
	}
	for _, c := range []rune{0x2B0, 0x2C2, 0x300, 0x660, 0x966, 0x2028, 0x2029, 0x2160, 0x3000, 0x4E00, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
		0x10000, 0x1D7CE, 0x10FFFF} {
		chars = append(chars, string(c))
	}
	chars = append(chars, "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80")
	np, nc, ns := int64(len(places)), int64(len(chars)), int64(len(seconds))
	r.Cases("contexts", np*nc*ns, func(w *Worker, i int64) {
		ds := Digits(i, np, nc, ns)
		pl := places[ds[0]]
		fn(w, pl[0]+chars[ds[1]]+seconds[ds[2]]+pl[1])
		if seconds[ds[2]] != "" {
			fn(w, pl[0]+seconds[ds[2]]+chars[ds[1]]+pl[1])
		}
	})
}

func (a alphabet) run(r *Run, scope string, quick, long int, fn func(w *Worker, s string)) {
	top := Pick(r, quick, long)
	np, ns := int64(len(a.prefix)), int64(len(a.suffix))
	for n := 0; n <= top; n++ {
		r.Cases(fmt.Sprintf("%s/%s/%d", scope, a.name, n), np*ns*Power(int64(len(a.chars)), n),
			func(w *Worker, i int64) {
				var sb strings.Builder
				sb.WriteString(a.prefix[i%np])
				i /= np
				suffix := a.suffix[i%ns]
				i /= ns
				var ds [16]int
				for _, d := range SeqDigits(i, int64(len(a.chars)), n, ds[:]) {
					sb.WriteString(a.chars[d])
				}
				sb.WriteString(suffix)
				fn(w, sb.String())
			})
	}
}

// A lexeme is the text of a token and what it must be scanned as.
type lexeme struct {
	text string
	rt   refToken
}

func lexemes() []lexeme {
	idt := func(s string, quoted bool) refToken {
		id := types.ID(s, quoted)
		if id < 0 {
			return refToken{tok: token.Reserved, id: id}
		}
		return refToken{tok: token.Identifier, id: id}
	}
	str := func(s string) refToken { return refToken{tok: token.String, str: s} }
	byt := func(s string) refToken { return refToken{tok: token.Bytes, bytes: []byte(s)} }
	num := func(n int64) refToken { return refToken{tok: token.Integer, num: n} }
	flt := func(f float64) refToken { return refToken{tok: token.Float, flt: f} }
	op := func(r rune) refToken { return refToken{tok: r} }

	lxs := []lexeme{
		{"a", idt("a", false)},
		{"B", idt("b", false)},
		{"eX", idt("ex", false)},
		{"x_$9", idt("x_$9", false)},
		{"é", idt("é", false)},
		{"\"a\"", idt("a", true)},
		{"\"A\nb;--\"", idt("A\nb;--", true)},
		{"[select]", idt("select", true)},
		{"`'`", idt("'", true)},
		{"SELECT", idt("select", false)},
		{"nULl", idt("NULL", false)},
		{"default", idt("DEFAULT", false)},
		{"True", idt("TRUE", false)},
		{"text", idt("TEXT", false)},
		{"''", str("")},
		{"'a''b'", str("a'b")},
		{"'/*;--\n\\'", str("/*;--\n\\")},
		{"'a'\n 'b'", str("ab")},
		{"e'\\'\\n\\x41\\101\\u00e9\\U0001F600\\q'", str("'\nAAé\U0001F600q")},
		{"b'\\xff\\377a'", byt("\xff\xffa")},
		{"B'\\u00e9'", byt("é")},
		{"x'00fF'", byt("\x00\xff")},
		{"X''", byt("")},
		{"0", num(0)},
		{"9223372036854775807", num(9223372036854775807)},
		{"007", num(7)},
		{"1.5", flt(1.5)},
		{"2.", flt(2)},
		{"0.000001", flt(0.000001)},
		{"$1", refToken{tok: token.Parameter, num: 1}},
		{"$12345", refToken{tok: token.Parameter, num: 12345}},
		{";", op(token.EndOfStatement)},
		{"(", op('(')}, {")", op(')')}, {",", op(',')}, {".", op('.')}, {"@", op('@')},
		{"+", op('+')}, {"-", op('-')}, {"*", op('*')}, {"/", op('/')}, {"%", op('%')},
		{"=", op('=')}, {"<", op('<')}, {">", op('>')}, {"&", op('&')}, {"|", op('|')}, {"!", op('!')},
		{"||", op(token.BarBar)}, {"<<", op(token.LessLess)}, {"<=", op(token.LessEqual)},
		{"<>", op(token.LessGreater)}, {">>", op(token.GreaterGreater)}, {">=", op(token.GreaterEqual)},
		{"==", op(token.EqualEqual)}, {"!=", op(token.BangEqual)},
	}
	return lxs
}

var separators = []string{" ", "\n", "\t", "\r\n", "/**/", "/* '\n; */", " --\n", " -- ' /*\n  ", "\u3000", "/*/ */ \n\n"}

func init() {
	checks["C23"] = func(r *Run) {
		r.Assume("The interning of names (C13) is used to name the identifiers expected.",
			"After the first piece of text which is not a token, only termination is decided (C24).")
		r.Sample(map[string]any{"scan": "e'\\'a'--\n-1", "tokens": showTokens(refTokens("e'\\'a'--\n-1"))})
		for _, a := range alphabets {
			a.run(r, "chars", a.quick, a.long-1, checkScan)
		}

		contexts(r, checkScan)

		// Sequences of tokens with every separator: what is expected is known by construction.
		lxs := lexemes()
		nl, ns := int64(len(lxs)), int64(len(separators))
		seq := func(w *Worker, sep string, ds []int) {
			var texts []string
			for _, d := range ds {
				texts = append(texts, lxs[d].text)
			}
			// A string followed by a string after a line break is one string.
			for k := 1; k < len(ds); k++ {
				pt, nt := lxs[ds[k-1]].rt.tok, lxs[ds[k]].rt.tok
				if (pt == token.String || pt == token.Bytes) && nt == token.String &&
					lxs[ds[k]].text[0] == '\'' && strings.TrimSpace(sep) == "" {
					return
				}
			}
			s := strings.Join(texts, sep)
			got, _ := scanAll(s)
			w.r.trans.Add(int64(len(got)))
			ok := len(got) == len(ds)+1 && got[len(ds)].tok == token.EOF
			for k := 0; ok && k < len(ds); k++ {
				ok = sameToken(got[k], lxs[ds[k]].rt)
			}
			if !ok {
				w.Fail("sequence", "%q: got %s", s, showTokens(got))
			}
			checkScan(w, sep+s+sep)
		}
		r.Cases("pairs", nl*nl*ns, func(w *Worker, i int64) {
			ds := Digits(i, nl, nl, ns)
			seq(w, separators[ds[2]], ds[:2])
		})
		tns := Pick(r, 2, ns)
		r.Cases("triples", nl*nl*nl*tns, func(w *Worker, i int64) {
			ds := Digits(i, nl, nl, nl, tns)
			seq(w, separators[ds[3]*4], ds[:3])
		})
		// With nothing between the tokens the reference scanner decides.
		r.Cases("joined", nl*nl*nl, func(w *Worker, i int64) {
			ds := Digits(i, nl, nl, nl)
			checkScan(w, lxs[ds[0]].text+lxs[ds[1]].text+lxs[ds[2]].text)
		})

		// Integers and floats around every boundary, signed in every way, after every kind of token.
		var nums []string
		for _, s := range []string{"9223372036854775807", "9223372036854775808", "9223372036854775809",
			"18446744073709551615", "99999999999999999999", "2147483648", "4294967296", "0", "00", "1",
			"000000000000000000001", "9007199254740993", "0.1", "1.7976931348623157", "123456789.123456789",
			strings.Repeat("9", 308) + ".0", strings.Repeat("9", 400) + ".", "0." + strings.Repeat("0", 400) + "1"} {
			for _, sign := range []string{"", "-", "+", "- ", "+ ", "--", "+-", "-+"} {
				nums = append(nums, sign+s)
			}
		}
		r.Cases("numbers", int64(len(nums))*nl, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(nums)), nl)
			checkScan(w, lxs[ds[1]].text+" "+nums[ds[0]])
			checkScan(w, nums[ds[0]]+lxs[ds[1]].text)
		})

		// Tokens of every length up to 300, and around larger powers of two.
		var lens []int
		for n := 1; n <= 300; n++ {
			lens = append(lens, n)
		}
		for k := 9; k <= Pick(r, 16, 20); k++ {
			lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
		}
		forms := [][3]string{{"", "a", ""}, {"B", "z", ""}, {"", "é", ""}, {"", "𐐀", ""}, {"_", "9", ""}, {"\"", "a", "\""}, {"[", "é", "]"}, {"`", "''", "`"},
			{"'", "a", "'"}, {"'", "''", "'"}, {"'", "é\n", "'"}, {"e'", "\\n", "'"}, {"e'", "\\u00e9", "'"}, {"'", "'\n'", "'"}, {"b'", "a", "'"},
			{"b'", "\\xff", "'"}, {"x'", "0F", "'"}, {"/*", "*", "*/"}, {"/*", "é", "*/"}, {"--", "-", "\n"}, {"", " ", ""}, {"", "\n", ""}, {"0", "0", "1"},
			{"", "9", ""}, {"1.", "0", "1"}, {"", "9", ".5"}, {"$", "0", "1"}, {"", "-", ""}, {"", "<", ""}, {"e", "e", ""}, {"x", "x", ""}}
		after := []string{"", " a", ";1", "b'c'", "\n'd'"}
		na, nf := int64(len(after)), int64(len(forms))
		r.Cases("lengths", int64(len(lens))*nf*na, func(w *Worker, i int64) {
			ds := Digits(i, int64(len(lens)), nf, na)
			if lens[ds[0]] > 300 && ds[2] > 1 {
				return
			}
			f := forms[ds[1]]
			checkScan(w, f[0]+strings.Repeat(f[1], lens[ds[0]])+f[2]+after[ds[2]])
		})

		// Every character in the basic plane alone, in a word, and in a string.
		r.Cases("unicode", 0x10000, func(w *Worker, i int64) {
			if i == '\'' || i == '\n' || i == '\r' {
				return
			}
			c := string(rune(i))
			checkScan(w, c)
			checkScan(w, "a"+c+"1")
			checkScan(w, "'"+c+"'")
			checkScan(w, "1"+c)
			if s := refTokens("a" + c); len(s) > 1 {
				r.State(hash64(showTokens(s)))
			}
		})
	}

	checks["C33"] = func(r *Run) {
		r.Assume("The position of the end of the input may be that of its last character or just after it, and is not decided within a comment.",
			"A statement rejected by a rule rather than for a token may name any position of the statement.")

		positions := func(w *Worker, s string) {
			want := refTokens(s)
			got, _ := scanAll(s)
			w.r.trans.Add(int64(len(got)))
			for i := range got {
				if i >= len(want) || got[i].tok != want[i].tok {
					return // Decided by C23.
				}
				if want[i].tok == token.EOF {
					if !want[i].inComment && (got[i].line != want[i].line ||
						got[i].col < want[i].col || got[i].col > want[i].col+1) {
						w.Fail("eof", "%q: end of input at %d:%d; want %s", s, got[i].line, got[i].col,
							want[i])
					}
				} else if got[i].line != want[i].line || got[i].col != want[i].col {
					w.Fail("position:"+kind(want[i].tok), "%q: token %d: got %s; want %s", s, i, got[i],
						want[i])
				}
			}
		}

		for _, a := range alphabets {
			a.run(r, "chars", a.quick, a.long-1, positions)
		}
		contexts(r, positions)
		lxs := lexemes()
		seps := append([]string{""}, separators...)
		nl, ns := int64(len(lxs)), int64(len(seps))
		tn := Pick(r, 1, ns)
		r.Cases("triples", nl*nl*nl*ns*tn, func(w *Worker, i int64) {
			ds := Digits(i, nl, nl, nl, ns, tn)
			s2 := seps[(int(ns)+ds[3]-1)%int(ns)]
			if tn > 1 {
				s2 = seps[ds[4]]
			}
			positions(w, s2+lxs[ds[0]].text+seps[ds[3]]+lxs[ds[1]].text+s2+lxs[ds[2]].text+seps[ds[3]])
		})

		// Tokens, and an unexpected token, far from the start.
		units := []string{"\n", " ", "\t", "\r\n", "/*\n*/", "/* */", "-- c\n", "'a\nb' ", "é ", "abc ", "12 ", "'x'\n", "b'\\x00' ",
			"( ", "\"q\n\" "}
		var lens []int
		for _, n := range []int{1, 64, 128, 256, 512, 1024, 4096, 32768, 65536} {
			lens = append(lens, n-1, n, n+1)
		}
		nu, nn := int64(len(units)), int64(len(lens))
		r.Cases("far", nu*nu*nn, func(w *Worker, i int64) {
			ds := Digits(i, nu, nu, nn)
			if lens[ds[2]] > 30000 && ds[1] != 0 && ds[1] != 8 && !r.Thorough() {
				return
			}
			lead := strings.Repeat(units[ds[0]], lens[ds[2]]) + units[ds[1]]
			positions(w, lead+"a 'b'  1 ;\n x")

			// One statement of all of this is wrong at its second token; what is wrong then starts a line, or not.
			toks := refTokens("begin " + lead + "rollback")
			text := "begin " + lead + "rollback\n"
			_, err := parser.NewParser(strings.NewReader(text), "file").Parse()
			w.r.trans.Add(1)
			if err == nil {
				w.Fail("far/accepted", "begin, %d of %q, and rollback: parsed", lens[ds[2]], units[ds[0]])
				return
			}
			line, col, ok := errorPosition(err)
			if want := toks[1]; !ok || line != want.line || col != want.col {
				w.Fail("far/error", "begin, %d of %q, %q, and rollback: %s; want %d:%d", lens[ds[2]], units[ds[0]], units[ds[1]], err,
					want.line, want.col)
			}
			r.State(hash64(fmt.Sprint(line, ":", col)))
		})

		// Parse errors: an unexpected token at each place of a statement, with each separator.
		tmpls := errorTemplates()
		bad := []string{"DETACH", "^", "@", "'s'", "1", "123.5", "b'\\x00'", "", "?", "$0", "==", "!", ")"}
		nb := int64(len(bad))
		var places [][2]int
		for t, tm := range tmpls {
			for k := 0; k <= len(tm); k++ {
				places = append(places, [2]int{t, k})
			}
		}
		leads := []string{"", "select 1;", "\n\n  begin;\n", "/* \n\n */ select 'a\nb' ; --\n", "foo bar;\n", ";;"}
		np, nd := int64(len(places)), int64(len(leads))
		r.Cases("errors", np*nb*ns*nd, func(w *Worker, i int64) {
			ds := Digits(i, np, nb, ns, nd)
			tm, k := tmpls[places[ds[0]][0]], places[ds[0]][1]
			sep := seps[ds[2]]
			if sep == "" {
				sep = "  "
			}
			lead := leads[ds[3]]
			head := lead + sep
			for _, t := range tm[:k] {
				head += t + sep
			}
			if k > 0 && tm[k-1] == "@" || bad[ds[1]] == "@" && k > 0 && tm[k-1] == "t" {
				return // An index may follow.
			}
			text := head + bad[ds[1]] + sep
			toks := refTokens(text)
			// The token which is not expected is the first after the lead and the k tokens.
			want := toks[len(toks)-1]
			if want.tok == token.EOF && bad[ds[1]] != "" {
				want = toks[len(toks)-2]
			}
			if want.tok == token.EOF && want.inComment {
				return
			}
			if !unexpected(tm, k, bad[ds[1]]) {
				return
			}
			var err error
			p := parser.NewParser(strings.NewReader(text), "file")
			nst := strings.Count(lead, ";") + 1
			if strings.Contains(lead, "/* \n") {
				nst = 2
			}
			var st sql.Stmt
			for n := 0; n < nst; n++ {
				st, err = p.Parse()
			}
			w.r.trans.Add(int64(nst))
			if err == nil {
				w.Fail("accepted", "%q: parsed: %v", text, st)
				return
			}
			if k == 0 && (bad[ds[1]] == "" || want.tok == token.Error) {
				return // The end of the input, or an error without a statement.
			}
			line, col, ok := errorPosition(err)
			if !ok {
				w.Fail("no-position", "%q: error without a position: %s", text, err)
			} else if want.tok == token.EOF {
				if line != want.line || col < want.col || col > want.col+1 {
					w.Fail("error-eof", "%q: %s; want %d:%d", text, err, want.line, want.col)
				}
			} else if line != want.line || col != want.col {
				w.Fail("error:"+kind(want.tok), "%q: %s; want %d:%d", text, err, want.line, want.col)
			}
			r.State(hash64(fmt.Sprint(line, ":", col, ":", k, ":", places[ds[0]][0])))
		})

		// The line where the data of a COPY starts.
		copies := []string{"copy t from stdin;", "copy t (a,\nb) from stdin delimiter\n','\n;", "COPY d.s.t FROM\n\nSTDIN ; -- rest ' of line",
			"copy t from stdin; select 1;", "copy [a\nb] from stdin;"}
		datas := []string{"", "\n", "\nx", "\n1,2\n3,4\n\\.\nselect 1;\n", "\n\n\n", "\r\nx\n"}
		nc, ndt := int64(len(copies)), int64(len(datas))
		r.Cases("copy", nc*ndt*nd*nd, func(w *Worker, i int64) {
			ds := Digits(i, nc, ndt, nd, nd)
			text := leads[ds[2]] + leads[ds[3]] + copies[ds[0]]
			lines := 1 + strings.Count(text, "\n")
			text += datas[ds[1]]
			if datas[ds[1]] != "" {
				lines++
			}
			p := parser.NewParser(strings.NewReader(text), "file")
			for n := 0; n < 20; n++ {
				st, _ := p.Parse()
				cp, ok := st.(*sql.Copy)
				if !ok {
					continue
				}
				w.r.trans.Add(1)
				if cp.FromLine != lines {
					w.Fail("copy-line", "%q: data at line %d; want %d", text, cp.FromLine, lines)
				}
				// Read some of the data; the positions of what follows must be right.
				left := []rune(strings.SplitN(datas[ds[1]]+"\n", "\n", 2)[1])
				for range left {
					if _, _, err := cp.From.ReadRune(); err != nil {
						break
					}
				}
				return
			}
			w.Fail("copy-missing", "%q: no copy", text)
		})

		// Positions after the data of a COPY has been read.
		r.Cases("after-copy", ndt*ns*6, func(w *Worker, i int64) {
			ds := Digits(i, ndt, ns, 6)
			data := strings.Repeat("a\tb\n", ds[2]) + "é\n"
			text := "select 1;\ncopy t from stdin;\n" + data + seps[ds[1]]
			rest := " select DETACH;"
			p := parser.NewParser(strings.NewReader(text+rest), "file")
			p.Parse()
			st, err := p.Parse()
			cp, ok := st.(*sql.Copy)
			if !ok {
				w.Fail("copy", "%q: %v %v", text, st, err)
				return
			}
			for range []rune(data) {
				cp.From.ReadRune()
			}
			_, err = p.Parse()
			w.r.trans.Add(3)
			toks := refTokens(strings.Repeat("\n", strings.Count("select 1;\ncopy t from stdin;\n"+data, "\n")) + seps[ds[1]] + rest)
			want := toks[1]
			if err == nil {
				w.Fail("accepted", "%q: no error", text+rest)
			} else if line, col, ok := errorPosition(err); !ok || line != want.line || col != want.col {
				w.Fail("after-copy", "%q: %s; want %d:%d", text+rest, err, want.line, want.col)
			}
		})
	}
}

var positionRegexp = regexp.MustCompile(`file:(\d+):(\d+)`)

func errorPosition(err error) (int, int, bool) {
	m := positionRegexp.FindStringSubmatch(err.Error())
	if m == nil {
		return 0, 0, false
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	return line, col, true
}

// errorTemplates are the tokens of statements; at each place some tokens are not expected.
func errorTemplates() [][]string {
	var tms [][]string
	for _, s := range []string{
		"begin",
		"alter table t drop constraint c , alter column c drop default",
		"create table if not exists d . s . t ( c1 int not null , c2 varchar ( 10 ) default 5 , primary key ( c1 desc , c2 ) )",
		"create unique index i on t ( c1 asc , c2 )",
		"create database d with path = 'x'",
		"drop table if exists t , s . t cascade",
		"drop schema d . s",
		"delete from t where a + 2 = ( 3 - b )",
		"insert into t ( a , b ) values ( 1 , default ) , ( - c , f ( 2 , x ) )",
		"select a , b as c , t . * from t as x where not a and b in ( select z ) group by a , b having 4 < 5 order by a desc , b",
		"select * from ( t join u on a == b ) , ( values ( 1 , 2 ) ) as v ( x , y )",
		"update t set a = 1 , b = default where c",
		"set database to 'x'",
		"show columns from t",
		"select a from t where exists ( select 1 ) and b < any ( values ( 1 ) )",
		"show tables from s",
		"explain verbose select 1",
		"values ( 1 , 'a' ) , ( 2 , exists ( select 1 ) )",
		"copy t ( a , b ) from stdin",
	} {
		tms = append(tms, strings.Fields(s))
	}
	return tms
}

// unexpected is whether no statement can start with the first k tokens of the template and then
// bad; where that depends on rules other than what the next token may be, it is false.
func unexpected(tm []string, k int, bad string) bool {
	text := strings.Join(tm[:k], " ")
	if text == "show" {
		return false // A name of any kind.
	}
	if strings.HasSuffix(text, "join u") {
		return false // A rule: a join must have a condition.
	}
	switch bad {
	case "DETACH", "^", "?":
		return true
	case "":
		return k < len(tm) && !mayEnd(text)
	}
	if k == 0 {
		return true
	}

	// What the token may follow is decided by the kind of place it is in.
	last := strings.ToLower(tm[k-1])
	if bad == "@" && last == "u" || bad == "'s'" && strings.HasSuffix(last, "'") {
		return false
	}
	switch last {
	case "exists", "any":
		return bad != "("
	case "where", "=", "==", "+", "-", "<", "not", "and", "having", "by", "default", "to", "select", "on":
		// An expression, perhaps.
		return false
	case ",", "(":
		return false
	}
	switch bad {
	case "$0":
		return true
	case "'s'", "1", "123.5", "b'\\x00'":
		// Never after a keyword that is not followed by an expression, or after an operand.
		return last != "=" && last != "delimiter" && last != "with" && last != "path"
	case "@":
		return last != "t" && last != "x"
	case "!":
		return true // No operator is spelled that way.
	case ")":
		return !strings.Contains(text, "(") && last != "*"
	case "==":
		return false
	}
	return false
}

// mayEnd is whether a statement may end after the text.
func mayEnd(text string) bool {
	_, err := parser.NewParser(strings.NewReader(text+" ;"), "file").Parse()
	return err == nil
}
