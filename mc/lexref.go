// A reference scanner: the lexical rules of the SQL dialect, written from the rules and not from
// the scanner under test.
package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode"

	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"
)

// A refToken is a token, its value, and where it starts.
type refToken struct {
	tok       rune
	id        types.Identifier
	str       string
	bytes     []byte
	num       int64
	flt       float64
	line, col int
	end       int  // position after the token
	inComment bool // the end of the input was reached in a comment
}

func (rt refToken) String() string {
	s := token.Format(rt.tok)
	switch rt.tok {
	case token.EOF:
		s = "EOF"
	case token.EndOfStatement:
		s = ";"
	case token.Error:
		s = "ERROR"
	case token.Identifier, token.Reserved:
		s = fmt.Sprintf("ID(%d %s)", rt.id, rt.id)
	case token.String:
		s = fmt.Sprintf("STRING(%q)", rt.str)
	case token.Bytes:
		s = fmt.Sprintf("BYTES(%x)", rt.bytes)
	case token.Integer:
		s = fmt.Sprintf("INTEGER(%d)", rt.num)
	case token.Parameter:
		s = fmt.Sprintf("PARAM(%d)", rt.num)
	case token.Float:
		s = fmt.Sprintf("FLOAT(%v)", rt.flt)
	}
	return fmt.Sprintf("%s@%d:%d", s, rt.line, rt.col)
}

type refLexer struct {
	in        []rune
	pos       int
	operand   bool
	line, col []int // of each character, and of the end
	end       bool
}

func newRefLexer(s string) *refLexer {
	lx := &refLexer{in: []rune(s)}
	line, col := 1, 0
	for _, r := range lx.in {
		if r == '\n' {
			line += 1
			col = 0
		} else {
			col += 1
		}
		lx.line = append(lx.line, line)
		lx.col = append(lx.col, col)
	}
	lx.line = append(lx.line, line)
	lx.col = append(lx.col, col)
	return lx
}

func (lx *refLexer) at(i int) rune {
	if i < len(lx.in) {
		return lx.in[i]
	}
	return -1
}

func isWord(r rune) bool {
	return r >= 0 && (unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '$')
}

func isDigit(r rune) bool { return r >= 0 && unicode.IsDigit(r) }
func isSpace(r rune) bool { return r >= 0 && unicode.IsSpace(r) }

const opChars = "-+*/%=<>&|!"

// next returns the next token.
func (lx *refLexer) next() refToken {
	rt := lx.scan()
	switch rt.tok {
	case token.Identifier, token.String, token.Bytes, token.Integer, token.Float, token.Parameter, ')':
		lx.operand = true
	case token.Reserved:
		lx.operand = rt.id == types.TRUE || rt.id == types.FALSE || rt.id == types.NULL
	default:
		lx.operand = false
	}
	rt.end = lx.pos
	return rt
}

func (lx *refLexer) scan() refToken {
	// Whitespace and comments.
	for {
		if isSpace(lx.at(lx.pos)) {
			lx.pos += 1
		} else if lx.at(lx.pos) == '-' && lx.at(lx.pos+1) == '-' {
			for lx.pos < len(lx.in) && lx.in[lx.pos] != '\n' {
				lx.pos += 1
			}
			if lx.pos == len(lx.in) {
				return refToken{tok: token.EOF, inComment: true}
			}
		} else if lx.at(lx.pos) == '/' && lx.at(lx.pos+1) == '*' {
			k := lx.pos + 2
			for k < len(lx.in) && !(lx.in[k] == '*' && lx.at(k+1) == '/') {
				k += 1
			}
			if k == len(lx.in) {
				lx.pos = len(lx.in)
				return refToken{tok: token.EOF, inComment: true}
			}
			lx.pos = k + 2
		} else {
			break
		}
	}

	rt := refToken{line: lx.line[lx.pos], col: lx.col[lx.pos]}
	start := lx.pos
	r := lx.at(lx.pos)
	r2 := lx.at(lx.pos + 1)
	switch {
	case r == -1:
		rt.tok = token.EOF
	case r == ';':
		lx.pos += 1
		rt.tok = token.EndOfStatement
	case (r == 'e' || r == 'E') && r2 == '\'':
		lx.pos += 2
		lx.quoted(&rt, true, false)
	case (r == 'b' || r == 'B') && r2 == '\'':
		lx.pos += 2
		lx.quoted(&rt, true, true)
	case (r == 'x' || r == 'X') && r2 == '\'':
		lx.pos += 2
		lx.hex(&rt)
	case r == '\'':
		lx.pos += 1
		lx.quoted(&rt, false, false)
	case unicode.IsLetter(r) || r == '_':
		for isWord(lx.at(lx.pos)) {
			lx.pos += 1
		}
		rt.id = types.ID(string(lx.in[start:lx.pos]), false)
		rt.tok = token.Identifier
		if rt.id < 0 {
			rt.tok = token.Reserved
		}
	case isDigit(r):
		lx.number(&rt, 1)
	case (r == '+' || r == '-') && isDigit(r2) && !lx.operand:
		lx.pos += 1
		if r == '-' {
			lx.number(&rt, -1)
		} else {
			lx.number(&rt, 1)
		}
	case r == '"' || r == '`' || r == '[':
		end := r
		if r == '[' {
			end = ']'
		}
		k := start + 1
		for k < len(lx.in) && lx.in[k] != end {
			k += 1
		}
		if k >= len(lx.in) || k == start+1 {
			rt.tok = token.Error
		} else {
			rt.tok = token.Identifier
			rt.id = types.ID(string(lx.in[start+1:k]), true)
			lx.pos = k + 1
		}
	case r == '+' || r == '-':
		lx.pos += 1
		rt.tok = r
	case strings.ContainsRune(opChars, r):
		lx.pos += 1
		rt.tok = r
		// An operator is two operator characters, except that the second may instead start a number
		// or a comment.
		if r2 >= 0 && strings.ContainsRune(opChars, r2) && r2 != '+' && r2 != '-' && r2 != '/' &&
			r != '+' && r != '-' {
			lx.pos += 1
			switch string([]rune{r, r2}) {
			case "||":
				rt.tok = token.BarBar
			case "<<":
				rt.tok = token.LessLess
			case "<=":
				rt.tok = token.LessEqual
			case "<>":
				rt.tok = token.LessGreater
			case ">>":
				rt.tok = token.GreaterGreater
			case ">=":
				rt.tok = token.GreaterEqual
			case "==":
				rt.tok = token.EqualEqual
			case "!=":
				rt.tok = token.BangEqual
			default:
				rt.tok = token.Error
			}
		}
	case r == '.' || r == ',' || r == '(' || r == ')' || r == '@':
		lx.pos += 1
		rt.tok = r
	case r == '$':
		k := start + 1
		for isDigit(lx.at(k)) {
			k += 1
		}
		n, ok := parseInt(string(lx.in[start+1 : k]))
		if !ok || n == 0 {
			rt.tok = token.Error
		} else {
			rt.tok = token.Parameter
			rt.num = n
			lx.pos = k
		}
	default:
		rt.tok = token.Error
	}
	return rt
}

// parseInt is an independent conversion of decimal digits with an optional minus.
func parseInt(s string) (int64, bool) {
	t := strings.TrimPrefix(s, "-")
	if t == "" {
		return 0, false
	}
	for _, r := range t {
		if r < '0' || r > '9' {
			return 0, false
		}
	}
	n, _ := new(big.Int).SetString(s, 10)
	if !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func (lx *refLexer) number(rt *refToken, sign int64) {
	start := lx.pos
	for isDigit(lx.at(lx.pos)) {
		lx.pos += 1
	}
	digits := string(lx.in[start:lx.pos])
	if sign < 0 {
		digits = "-" + digits
	}
	if lx.at(lx.pos) == '.' {
		lx.pos += 1
		fs := lx.pos
		for isDigit(lx.at(lx.pos)) {
			lx.pos += 1
		}
		f, err := strconv.ParseFloat(digits+"."+string(lx.in[fs:lx.pos])+"0", 64)
		if err != nil || math.IsInf(f, 0) {
			rt.tok = token.Error
			return
		}
		rt.tok = token.Float
		rt.flt = f
		return
	}

	n, ok := parseInt(digits)
	if !ok {
		rt.tok = token.Error
		return
	}
	rt.tok = token.Integer
	rt.num = n
}

// digits returns the value of exactly n digits in the base at the position.
func (lx *refLexer) digits(n int, base int64) (int64, bool) {
	if lx.pos+n > len(lx.in) {
		return 0, false
	}
	s := string(lx.in[lx.pos : lx.pos+n])
	for _, r := range s {
		if !strings.ContainsRune("0123456789abcdefABCDEF", r) {
			return 0, false
		}
	}
	v, err := strconv.ParseInt(s, int(base), 64)
	if err != nil {
		return 0, false
	}
	lx.pos += n
	return v, true
}

func (lx *refLexer) quoted(rt *refToken, esc, raw bool) {
	var buf []byte
	rt.tok = token.Error
	for {
		r := lx.at(lx.pos)
		if r == -1 {
			return
		}
		lx.pos += 1

		if r == '\'' {
			if lx.at(lx.pos) == '\'' {
				lx.pos += 1
				buf = append(buf, '\'')
				continue
			}

			// The end, unless it continues after whitespace which includes a line break.
			k := lx.pos
			nl := false
			for isSpace(lx.at(k)) {
				nl = nl || lx.at(k) == '\n' || lx.at(k) == '\r'
				k += 1
			}
			if nl && lx.at(k) == '\'' {
				lx.pos = k + 1
				continue
			}
			break
		}

		if r != '\\' || !esc {
			buf = append(buf, string(r)...)
			continue
		}

		r = lx.at(lx.pos)
		if r == -1 {
			return
		}
		lx.pos += 1
		if k := strings.IndexRune("abtnvfr", r); k >= 0 {
			buf = append(buf, "\a\b\t\n\v\f\r"[k])
			continue
		}
		var v int64
		ok := true
		bits := false
		switch {
		case r == 'x':
			v, ok = lx.digits(2, 16)
			bits = raw
		case r == 'u':
			v, ok = lx.digits(4, 16)
		case r == 'U':
			v, ok = lx.digits(8, 16)
			ok = ok && v <= unicode.MaxRune
		case r >= '0' && r <= '7':
			lx.pos -= 1
			v, ok = lx.digits(3, 8)
			v &= 0xFF // The value of an octal escape is one byte.
			bits = raw
		default:
			v = int64(r) // The character itself.
		}
		if !ok {
			return
		}
		if bits {
			buf = append(buf, byte(v))
		} else {
			buf = append(buf, string(rune(v))...)
		}
	}

	if raw {
		rt.tok = token.Bytes
		rt.bytes = buf
	} else {
		rt.tok = token.String
		rt.str = string(buf)
	}
}

func (lx *refLexer) hex(rt *refToken) {
	rt.tok = token.Error
	var buf []byte
	for {
		if lx.at(lx.pos) == '\'' {
			lx.pos += 1
			break
		}
		v, ok := lx.digits(2, 16)
		if !ok {
			return
		}
		buf = append(buf, byte(v))
	}
	rt.tok = token.Bytes
	rt.bytes = buf
}

// refTokens returns the tokens of s up to and including the end of the input or the first error.
func refTokens(s string) []refToken {
	lx := newRefLexer(s)
	var rts []refToken
	for {
		rt := lx.next()
		rts = append(rts, rt)
		if rt.tok == token.EOF || rt.tok == token.Error {
			return rts
		}
	}
}

func showTokens(rts []refToken) string {
	var ss []string
	for _, rt := range rts {
		ss = append(ss, rt.String())
	}
	return strings.Join(ss, " ")
}

// scanAll scans s with the scanner under test: to the end or the first error.
func scanAll(s string) (rts []refToken, raw []*scanner.ScanCtx) {
	var sc scanner.Scanner
	sc.Init(strings.NewReader(s), "test")
	n := len([]rune(s)) + 2
	for i := 0; i <= n; i++ {
		sctx := &scanner.ScanCtx{}
		sc.Scan(sctx)
		raw = append(raw, sctx)
		rts = append(rts, fromCtx(sctx))
		if sctx.Token == token.EOF || sctx.Token == token.Error {
			break
		}
	}
	return
}

func fromCtx(sctx *scanner.ScanCtx) refToken {
	rt := refToken{tok: sctx.Token, line: sctx.Line, col: sctx.Column}
	switch sctx.Token {
	case token.Identifier, token.Reserved:
		rt.id = sctx.Identifier
	case token.String:
		rt.str = sctx.String
	case token.Bytes:
		rt.bytes = append([]byte{}, sctx.Bytes...)
	case token.Integer, token.Parameter:
		rt.num = sctx.Integer
	case token.Float:
		rt.flt = sctx.Float
	}
	return rt
}

func sameToken(a, b refToken) bool {
	return a.tok == b.tok && a.id == b.id && a.str == b.str && string(a.bytes) == string(b.bytes) &&
		a.num == b.num && a.flt == b.flt
}
