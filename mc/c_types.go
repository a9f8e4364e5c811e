// C09-C13, C15: keys, codecs, comparison, conversion, identifiers, and encoded definitions.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	checks["C09"] = checkC09
	checks["C10"] = checkC10
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C15"] = checkC15
}

var (
	negNaN  = math.Float64frombits(math.Float64bits(math.NaN()) | 1<<63)
	payNaN  = math.Float64frombits(0x7FF0000000000001)
	minSub  = math.SmallestNonzeroFloat64
	p63     = 9223372036854775808.0
	p63down = math.Nextafter(p63, 0)
	p63up   = math.Nextafter(p63, inf)
	p53     = 9007199254740992.0
)

// strs is every string over the alphabet with length at most n.
func strs(alpha []string, n int) []string {
	all := []string{""}
	prev := []string{""}
	for ; n > 0; n-- {
		var next []string
		for _, p := range prev {
			for _, a := range alpha {
				next = append(next, p+a)
			}
		}
		all = append(all, next...)
		prev = next
	}
	return all
}

func intDomain() []Value {
	var vs []Value
	seen := map[int64]bool{}
	add := func(i int64) {
		if !seen[i] {
			seen[i] = true
			vs = append(vs, I(i))
		}
	}
	for k := 0; k < 64; k++ {
		p := int64(uint64(1) << k)
		for d := int64(-1); d <= 1; d++ {
			add(p + d)
			add(-p + d)
		}
	}
	for _, i := range []int64{255, 256, 257, 65535, -255, -256, -257, 0x0102030405060708, -0x0102030405060708} {
		add(i)
	}
	return vs
}

func floatDomain() []Value {
	var vs []Value
	seen := map[uint64]bool{}
	add := func(f float64) {
		if !seen[math.Float64bits(f)] {
			seen[math.Float64bits(f)] = true
			vs = append(vs, F(f))
		}
	}
	for _, f := range []float64{0, negZero, nan, negNaN, payNaN, inf, -inf, minSub, -minSub, math.MaxFloat64,
		-math.MaxFloat64, 0.1, -0.1, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 1e10, -1e10, 1e300, 1e-300, 2.2250738585072014e-308,
		2.2250738585072009e-308} {
		add(f)
	}
	for _, k := range []int{0, 1, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 100} {
		p := math.Ldexp(1, k)
		for _, s := range []float64{1, -1} {
			add(s * p)
			add(s * math.Nextafter(p, 0))
			add(s * math.Nextafter(p, inf))
			add(s * (p + 1))
			add(s * (p - 1))
		}
	}
	return vs
}

func checkC09(r *Run) {
	sdom := []Value{nil}
	for _, s := range strs([]string{"\x00", "\x01", "\x02", "a", "\xfe", "\xff"}, Pick(r, 3, 4)) {
		sdom = append(sdom, S(s))
	}
	bdom := []Value{nil}
	for _, v := range sdom[1:] {
		bdom = append(bdom, B([]byte(v.(S))))
	}
	idom := append([]Value{nil}, intDomain()...)
	fdom := append([]Value{nil}, floatDomain()...)
	tdom := []Value{nil, T(false), T(true)}
	// Values of different types in the same column can not be stored, but their keys must still
	// be told apart: bounds of a scan are not converted.
	mixed := []Value{nil, T(false), T(true), I(-1), I(0), I(1), F(0.5), F(-1), F(0), S(""), S("a"), B(""), B("a")}

	cmp := func(w *Worker, key []types.ColumnKey, a, b []Value) {
		ka, kb := encode.MakeKey(key, a), encode.MakeKey(key, b)
		w.r.trans.Add(1)
		want := refKeyCompare(key, a, b)
		got := sign(bytes.Compare(ka, kb))
		if got != want {
			w.Fail("order", "key %v: %s and %s: keys %x and %x compare %d; want %d", key, fmtRow(a), fmtRow(b),
				ka, kb, got, want)
		}
		if want != 0 && (bytes.HasPrefix(ka, kb) || bytes.HasPrefix(kb, ka)) {
			w.Fail("prefix", "key %v: %s and %s: key %x and %x: one is the prefix of the other", key, fmtRow(a),
				fmtRow(b), ka, kb)
		}
	}

	doms := []struct {
		name string
		dom  []Value
	}{{"string", sdom}, {"bytes", bdom}, {"int", idom}, {"float", fdom}, {"bool", tdom}}
	for _, d := range doms {
		dom := d.dom
		r.Cases("single/"+d.name, int64(len(dom)), func(w *Worker, i int64) {
			for _, rev := range []bool{false, true} {
				key := []types.ColumnKey{ck(0, rev)}
				a := []Value{dom[i]}
				k1, k2 := encode.MakeKey(key, a), encode.MakeKey(key, copyRow(a))
				if !bytes.Equal(k1, k2) {
					w.Fail("deterministic", "key of %s: %x and %x", fmtRow(a), k1, k2)
				}
				w.r.State(hash64(string(k1), fmt.Sprint(rev)))
				for _, v := range dom {
					cmp(w, key, a, []Value{v})
				}
			}
			if i%50 == 3 {
				w.r.Sample(fmt.Sprintf("%s against %d values, both directions", fmtValue(dom[i]), len(dom)))
			}
		})
	}
	_ = mixed
	longKeys(r, cmp)

	// Composite keys: every pair of types and directions, columns in either order.
	small := [][]Value{
		{nil, S(""), S("\x00"), S("\x01"), S("\x00\x00"), S("\x00\x01"), S("\x01\x00"), S("\x01\x01"), S("a"), S("a\x00"),
			S("\xff"), S("\xff\xff"), S("\xfe")},
		{nil, B(""), B("\x00"), B("\x01"), B("\x00\x00"), B("\x00\x01"), B("\x01\x00"), B("\x02"), B("\x80"), B("\xff"), B("\xff\x00")},
		{nil, I(math.MinInt64), I(-256), I(-1), I(0), I(1), I(255), I(256), I(math.MaxInt64)},
		{nil, F(nan), F(-inf), F(-1.5), F(-minSub), F(negZero), F(0), F(minSub), F(1), F(inf)},
		{nil, T(false), T(true)},
	}
	ns := int64(len(small))
	r.Cases("pairs", ns*ns*4*2, func(w *Worker, i int64) {
		g := Digits(i, ns, ns, 2, 2, 2)
		key := []types.ColumnKey{ck(0, g[2] == 1), ck(1, g[3] == 1)}
		if g[4] == 1 {
			key = []types.ColumnKey{ck(1, g[3] == 1), ck(0, g[2] == 1)}
		}
		var rows [][]Value
		for _, a := range small[g[0]] {
			for _, b := range small[g[1]] {
				rows = append(rows, []Value{a, b})
			}
		}
		for _, a := range rows {
			for _, b := range rows {
				cmp(w, key, a, b)
			}
		}
	})

	tiny := [][]Value{
		{nil, S(""), S("\x00"), S("\x01"), S("\xff")},
		{nil, B(""), B("\x00"), B("\x00\x01"), B("\xff")},
		{nil, I(-1), I(0), I(math.MaxInt64)},
		{nil, F(nan), F(-1), F(0), F(1)},
		{nil, T(false), T(true)},
	}
	nt := int64(len(tiny))
	// The key uses columns 1, 3, and 0 of 4; column 2 is not part of the key.
	r.Cases("triples", nt*nt*nt*8, func(w *Worker, i int64) {
		g := Digits(i, nt, nt, nt, 2, 2, 2)
		key := []types.ColumnKey{ck(1, g[3] == 1), ck(3, g[4] == 1), ck(0, g[5] == 1)}
		var rows [][]Value
		for _, a := range tiny[g[0]] {
			for _, b := range tiny[g[1]] {
				for _, c := range tiny[g[2]] {
					rows = append(rows, []Value{c, a, I(len(rows)), b})
				}
			}
		}
		for _, a := range rows {
			for _, b := range rows {
				cmp(w, key, a, b)
			}
		}
	})
}

// refDecodeVarint: canonical is false if there are needless bytes.
func refDecodeVarint(b []byte) (rest []byte, n uint64, ok, canonical bool) {
	var lo uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v := uint64(b[i] & 0x7F)
		if i == 9 && b[i] > 1 {
			return nil, 0, false, true
		}
		lo |= v << (7 * i)
		if b[i]&0x80 == 0 {
			return b[i+1:], lo, true, i == 0 || b[i] != 0
		}
	}
	return nil, 0, false, true
}

func checkC10(r *Run) {
	decode := func(w *Worker, b []byte) {
		in := append([]byte{}, b...)
		rest, n, ok := encode.DecodeVarint(in)
		wrest, wn, wok, canonical := refDecodeVarint(b)
		if ok && (!wok || n != wn || !bytes.Equal(rest, wrest)) || (!ok && wok && canonical) {
			w.Fail("decode", "decode varint %x: got %x %d %v; want %x %d %v", b, rest, n, ok, wrest, wn, wok)
		}
		rest, i, ok := encode.DecodeZigzag64(in)
		wi := int64(wn>>1) ^ -int64(wn&1)
		if ok && (!wok || i != wi || !bytes.Equal(rest, wrest)) || (!ok && wok && canonical) {
			w.Fail("decode-zigzag", "decode zigzag %x: got %x %d %v; want %x %d %v", b, rest, i, ok, wrest, wi, wok)
		}
		if !bytes.Equal(in, b) {
			w.Fail("decode-changed", "decode changed its input: %x to %x", b, in)
		}
	}
	round := func(w *Worker, n uint64) {
		for _, pre := range []string{"", "\x80\xff"} {
			buf := encode.EncodeVarint([]byte(pre), n)
			if !bytes.HasPrefix(buf, []byte(pre)) {
				w.Fail("encode-prefix", "encode varint %d changed what it was appended to: %x", n, buf)
				continue
			}
			enc := buf[len(pre):]
			if max := 1 + (bits.Len64(n|1)-1)/7; len(enc) != max {
				w.Fail("encode-length", "encode varint %d: %x; want %d bytes", n, enc, max)
			}
			for _, suf := range []string{"", "\x00", "\x80", "\xff\x01"} {
				rest, got, ok := encode.DecodeVarint(append(append([]byte{}, enc...), suf...))
				if !ok || got != n || string(rest) != suf {
					w.Fail("round", "varint %d: %x then %x: got %d %x %v", n, enc, suf, got, rest, ok)
				}
			}
			for k := range enc {
				if _, got, ok := encode.DecodeVarint(enc[:k:k]); ok {
					w.Fail("truncated", "varint %d: truncated to %x: got %d", n, enc[:k], got)
				}
			}

			i := int64(n)
			buf = encode.EncodeZigzag64([]byte(pre), i)
			enc = buf[len(pre):]
			for _, suf := range []string{"", "\x00", "\x80\xff"} {
				rest, got, ok := encode.DecodeZigzag64(append(append([]byte{}, enc...), suf...))
				if !ok || got != i || string(rest) != suf {
					w.Fail("round-zigzag", "zigzag %d: %x then %x: got %d %x %v", i, enc, suf, got, rest, ok)
				}
			}
			for k := range enc {
				if _, got, ok := encode.DecodeZigzag64(enc[:k:k]); ok {
					w.Fail("truncated-zigzag", "zigzag %d: truncated to %x: got %d", i, enc[:k], got)
				}
			}

			buf = encode.EncodeUint64([]byte(pre), n)
			if len(buf) != len(pre)+8 || string(buf[:len(pre)]) != pre || binary.BigEndian.Uint64(buf[len(pre):]) != n {
				w.Fail("fixed64", "encode uint64 %d: %x", n, buf)
			}
			u := uint32(n)
			buf = encode.EncodeUint32([]byte(pre), u)
			if len(buf) != len(pre)+4 || string(buf[:len(pre)]) != pre || binary.BigEndian.Uint32(buf[len(pre):]) != u {
				w.Fail("fixed32", "encode uint32 %d: %x", u, buf)
			}
		}
		w.r.trans.Add(1)
	}

	const block = 1 << 12
	r.Cases("small", Pick(r, int64(1<<8), 1<<12), func(w *Worker, i int64) {
		for n := i * block; n < (i+1)*block; n++ {
			round(w, uint64(n))
		}
		w.r.State(hash64("small", fmt.Sprint(i)))
	})
	r.Cases("powers", 65, func(w *Worker, i int64) {
		p := uint64(0)
		if i < 64 {
			p = 1 << i
		}
		span := uint64(Pick(w.r, 2000, 100000))
		for d := uint64(0); d < 2*span; d++ {
			round(w, p+d-span)
			round(w, -(p + d - span))
		}
		if i%13 == 0 {
			w.r.Sample(fmt.Sprintf("round trip of %d integers around 2^%d and its negative, with every truncation", 2*span, i))
		}
		w.r.State(hash64("powers", fmt.Sprint(i)))
	})

	// Every byte string of three bytes or less.
	r.Cases("bytes3", 1<<16, func(w *Worker, i int64) {
		b := []byte{byte(i >> 8), byte(i), 0}
		if i == 0 {
			decode(w, nil)
		}
		if i < 256 {
			decode(w, []byte{byte(i)})
		}
		decode(w, b[:2])
		for c := 0; c < 256; c++ {
			b[2] = byte(c)
			decode(w, b)
			w.r.trans.Add(1)
		}
	})
	// Long strings: the first bytes and then every ending.
	alpha := []byte{0x00, 0x01, 0x02, 0x03, 0x7E, 0x7F, 0x80, 0x81, 0x82, 0xFE, 0xFF}
	na := int64(len(alpha))
	r.Cases("long", 12*4*Power(na, 3), func(w *Worker, i int64) {
		g := Digits(i, 12, 4, na, na, na)
		var b []byte
		for k := 0; k < g[0]; k++ {
			switch g[1] {
			case 0:
				b = append(b, 0x80)
			case 1:
				b = append(b, 0xFF)
			case 2:
				b = append(b, byte(0x80+k))
			case 3:
				b = append(b, byte(0x80|0x55<<(k&1)))
			}
		}
		b = append(b, alpha[g[2]], alpha[g[3]], alpha[g[4]])
		for k := 0; k <= len(b); k++ {
			decode(w, b[:k])
			w.r.trans.Add(1)
		}
		for c := 0; c < 256; c++ {
			decode(w, append(b[:len(b):len(b)], byte(c)))
		}
		w.r.State(hash64("long", string(b)))
	})
	r.Assume("an encoding with needless bytes may be either accepted or rejected")
}

func valueDomain(r *Run) []Value {
	vs := []Value{nil, T(false), T(true)}
	vs = append(vs, intDomain()...)
	vs = append(vs, floatDomain()...)
	for _, s := range strs([]string{"\x00", "A", "a", "1", "\xff", "é"}, Pick(r, 2, 3)) {
		vs = append(vs, S(s), B([]byte(s)))
	}
	return vs
}

func checkC11(r *Run) {
	bigCompares(r)
	dom := valueDomain(r)
	n := int64(len(dom))
	cmps := make([][]int8, n)
	var mu sync.Mutex
	r.Cases("pairs", n, func(w *Worker, i int64) {
		row := make([]int8, n)
		for j, v := range dom {
			a, b := dom[i], copyValue(v)
			got := sign(types.Compare(a, b))
			row[j] = int8(got)
			w.r.trans.Add(1)
			if want := refCompare(a, b); got != want {
				w.Fail("compare", "compare %s and %s: got %d want %d", fmtValue(a), fmtValue(b), got, want)
			}
			if back := sign(types.Compare(b, a)); back != -got {
				w.Fail("antisymmetric", "compare %s and %s: %d; the other way: %d", fmtValue(a), fmtValue(b), got, back)
			}
		}
		w.r.State(hash64(canon(dom[i])))
		mu.Lock()
		cmps[i] = row
		mu.Unlock()
		if i%97 == 5 {
			w.r.Sample(fmt.Sprintf("%s against %d values, both ways, and every triple with it", fmtValue(dom[i]), n))
		}
	})
	if r.only == "" {
		r.Cases("triples", n, func(w *Worker, i int64) {
			for j := range dom {
				for k := range dom {
					if cmps[i][j] <= 0 && cmps[j][k] <= 0 && (cmps[i][k] > 0 ||
						(cmps[i][k] == 0 && (cmps[i][j] != 0 || cmps[j][k] != 0))) {
						w.Fail("transitive", "%s <= %s <= %s but compare of the first and last is %d", fmtValue(dom[i]),
							fmtValue(dom[j]), fmtValue(dom[k]), cmps[i][k])
					}
				}
			}
			w.r.trans.Add(n * n)
		})
	}
}

func checkC12(r *Run) {
	vts := []types.ValueType{types.BoolType, types.StringType, types.BytesType, types.Float64Type, types.Int64Type}
	cast := func(w *Worker, vt types.ValueType, v Value) {
		w.r.trans.Add(1)
		in := copyValue(v)
		var got Value
		o, txt := try(func() error {
			var err error
			got, err = types.CastValue(vt, in)
			return err
		})
		want, good := refCast(vt, v)
		wo := oErr
		if good {
			wo = oOK
		}
		if o != wo || (good && canon(got) != canon(want)) {
			w.Fail("cast/"+vt.String(), "cast %s to %s: got %s %s %s; want %s %s", fmtValue(v), vt, o, fmtValue(got), txt, wo,
				fmtValue(want))
		}
		if canon(in) != canon(v) {
			w.Fail("cast-arg", "cast of %s to %s changed it to %s", fmtValue(v), vt, fmtValue(in))
		}
	}

	dom := valueDomain(r)
	words := []string{"t", "true", "y", "yes", "on", "1", "f", "false", "n", "no", "off", "0", "T", "TRUE", "tr", "truee", "o",
		"of", "ye", "01", "00", "2", "-1", "+1", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
		"-9223372036854775809", "1e400", "-1e400", "1e-400", "0x10", "0b1", "1_000", "NaN", "nan", "inf", "-Inf", "Infinity",
		"1.5", "1.", ".5", "1e3", "00012", "1 2", "é", "\xff", "日本語"}
	for _, wd := range words {
		for _, pre := range []string{"", " ", "\t\n ", "\r", "\v"} {
			for _, suf := range []string{"", " ", "\n\t", "\r", "\x00"} {
				dom = append(dom, S(pre+wd+suf), B([]byte(pre+wd+suf)))
			}
		}
	}
	r.Cases("cast", int64(len(dom)), func(w *Worker, i int64) {
		for _, vt := range vts {
			cast(w, vt, dom[i])
		}
		w.r.State(hash64(canon(dom[i])))
	})

	// The text of values and rows.
	format := func(v Value) string {
		switch v := v.(type) {
		case nil:
			return "NULL"
		case T:
			return map[bool]string{false: "false", true: "true"}[bool(v)]
		case I:
			return strconv.FormatInt(int64(v), 10)
		case F:
			return strconv.FormatFloat(float64(v), 'g', -1, 64)
		case S:
			return "'" + string(v) + "'"
		case B:
			return `'\x` + fmt.Sprintf("%x", []byte(v)) + "'"
		}
		panic(v)
	}
	fdom := append([]Value{nil, T(false), T(true)}, dom...)
	for _, l := range literalValues(r) {
		fdom = append(fdom, l.val)
	}
	r.Cases("format", int64(len(fdom)), func(w *Worker, i int64) {
		v := fdom[i]
		w.r.trans.Add(1)
		want := format(v)
		if got := types.FormatValue(v); got != want {
			w.Fail("format", "%s: formatted as %q; want %q", fmtValue(v), got, want)
		}
		rw := want
		row := Row{}
		if s := row.String(); s != "()" {
			w.Fail("format-row", "no values: formatted as %q", s)
		}
		for n := 1; n <= 3; n++ {
			row = append(row, v)
			if s := row.String(); s != "("+rw+")" {
				w.Fail("format-row", "%s: formatted as %q; want %q", fmtRow(row), s, "("+rw+")")
			}
			rw += ", " + want
		}
	})

	alpha := []string{"1", "0", "-", "+", ".", " ", "\n", "e", "t", "o", "n", "9", "x", "_"}
	na := int64(len(alpha))
	for d := 1; d <= Pick(r, 5, 6); d++ {
		r.Cases(fmt.Sprintf("strings/%d", d), Power(na, d), func(w *Worker, i int64) {
			var b strings.Builder
			for _, k := range SeqDigits(i, na, d, nil) {
				b.WriteString(alpha[k])
			}
			for _, vt := range vts {
				cast(w, vt, S(b.String()))
			}
			if i%50021 == 77 {
				w.r.Sample(fmt.Sprintf("%q to every type", b.String()))
			}
		})
	}

	// Columns.
	var ctypes []types.ColumnType
	for _, nn := range []bool{false, true} {
		ctypes = append(ctypes, types.ColumnType{Type: types.BoolType, Size: 1, NotNull: nn},
			types.ColumnType{Type: types.Float64Type, Size: 8, NotNull: nn},
			types.ColumnType{Type: types.Float64Type, Size: 4, NotNull: nn})
		for _, sz := range []uint32{1, 2, 4, 8} {
			ctypes = append(ctypes, types.ColumnType{Type: types.Int64Type, Size: sz, NotNull: nn})
		}
		for _, sz := range []uint32{0, 1, 2, 3, 4, 5, 20, types.MaxColumnSize} {
			for _, fx := range []bool{false, true} {
				ctypes = append(ctypes, types.ColumnType{Type: types.StringType, Size: sz, Fixed: fx, NotNull: nn},
					types.ColumnType{Type: types.BytesType, Size: sz, Fixed: fx, NotNull: nn})
			}
		}
	}
	long := append([]Value{}, dom...)
	for _, s := range strs([]string{"a", "é", "日", "𝄞"}, 5) {
		long = append(long, S(s), B([]byte(s)))
	}
	r.Cases("convert", int64(len(long)), func(w *Worker, i int64) {
		v := long[i]
		for _, ct := range ctypes {
			w.r.trans.Add(1)
			in := copyValue(v)
			var got Value
			o, txt := try(func() error {
				var err error
				got, err = types.ConvertValue(ct, in)
				return err
			})
			want, good := refConvert(ct, v)
			wo := oErr
			if good {
				wo = oOK
			}
			if o != wo || (good && canon(got) != canon(want)) {
				w.Fail("convert/"+ct.Type.String(), "convert %s to %#v: got %s %s %s; want %s %s", fmtValue(v), ct, o,
					fmtValue(got), txt, wo, fmtValue(want))
			}
			if canon(in) != canon(v) {
				w.Fail("convert-arg", "convert of %s to %#v changed it", fmtValue(v), ct)
			}
		}
		w.r.State(hash64(canon(v)))
	})

	longConverts(r)

	// Rows.
	rowTypes := cts(intN, str4NN, types.ColumnType{Type: types.BytesType, Size: 2}, types.ColumnType{Type: types.Int64Type,
		Size: 2, NotNull: true})
	rdom := []Value{nil, I(1), I(40000), S("1"), S("x"), S("toolong"), B("ab"), B("abc"), F(2.5)}
	nr := int64(len(rdom))
	for n := 0; n <= len(rowTypes)+1; n++ {
		d := n
		r.Cases(fmt.Sprintf("rows/%d", d), Power(nr, d), func(w *Worker, i int64) {
			var row []Value
			for _, k := range SeqDigits(i, nr, d, nil) {
				row = append(row, rdom[k])
			}
			for k := d; k < len(rowTypes); k++ {
				if rowTypes[k].NotNull {
					return // a missing value which may not be NULL is up to the table
				}
			}
			in := copyRow(row)
			var got Row
			o, txt := try(func() error {
				var err error
				got, err = types.ConvertRow(rowTypes, in)
				return err
			})
			want, good := refConvertRow(rowTypes, row)
			wo := oErr
			if good {
				wo = oOK
			}
			if o != wo || (good && !sameRow(got, want)) {
				w.Fail("convert-row", "convert row %s: got %s %s %s; want %s %s", fmtRow(row), o, fmtRow(got), txt, wo, fmtRow(want))
			}
			if !sameRow(in, row) {
				w.Fail("convert-row-arg", "convert of row %s changed it to %s", fmtRow(row), fmtRow(in))
			}
		})
	}
	r.Assume("the decimal forms of numbers are those of the standard library")
}

// The vocabulary, written down independently of the code's tables.
var (
	reservedWords = map[string]Ident{
		"ACTION": types.ACTION, "ADD": types.ADD, "ALL": types.ALL, "ALTER": types.ALTER, "AND": types.AND, "ANY": types.ANY,
		"AS": types.AS, "ASC": types.ASC, "BEGIN": types.BEGIN, "BY": types.BY, "CASCADE": types.CASCADE, "CHECK": types.CHECK,
		"COLUMN": types.COLUMN, "COMMIT": types.COMMIT, "CONSTRAINT": types.CONSTRAINT, "COPY": types.COPY,
		"CREATE": types.CREATE, "CROSS": types.CROSS, "DATABASE": types.DATABASE, "DEFAULT": types.DEFAULT,
		"DELETE": types.DELETE, "DELIMITER": types.DELIMITER, "DESC": types.DESC, "DETACH": types.DETACH, "DROP": types.DROP,
		"EXECUTE": types.EXECUTE, "EXISTS": types.EXISTS, "EXPLAIN": types.EXPLAIN, "FALSE": types.FALSE,
		"FOREIGN": types.FOREIGN, "FROM": types.FROM, "FULL": types.FULL, "GROUP": types.GROUP, "HAVING": types.HAVING,
		"IF": types.IF, "IN": types.IN, "INDEX": types.INDEX, "INNER": types.INNER, "INSERT": types.INSERT, "INTO": types.INTO,
		"IS": types.IS, "JOIN": types.JOIN, "KEY": types.KEY, "LEFT": types.LEFT, "NO": types.NO, "NOT": types.NOT,
		"NULL": types.NULL, "ON": types.ON, "OR": types.OR, "ORDER": types.ORDER, "OUTER": types.OUTER,
		"PREPARE": types.PREPARE, "PRIMARY": types.PRIMARY, "REFERENCES": types.REFERENCES, "RESTRICT": types.RESTRICT,
		"RIGHT": types.RIGHT, "ROLLBACK": types.ROLLBACK, "SCHEMA": types.SCHEMA, "SELECT": types.SELECT, "SET": types.SET,
		"SHOW": types.SHOW, "SOME": types.SOME, "START": types.START, "TABLE": types.TABLE, "TO": types.TO,
		"TRANSACTION": types.TRANSACTION, "TRUE": types.TRUE, "UNIQUE": types.UNIQUE, "UPDATE": types.UPDATE,
		"USE": types.USE, "USING": types.USING, "VALUES": types.VALUES, "VERBOSE": types.VERBOSE, "WHERE": types.WHERE,
		"WITH": types.WITH,
	}
	plainWords = map[string]Ident{
		"BIGINT": types.BIGINT, "BINARY": types.BINARY, "BLOB": types.BLOB, "BOOL": types.BOOL, "BOOLEAN": types.BOOLEAN,
		"BYTEA": types.BYTEA, "BYTES": types.BYTES, "CHAR": types.CHAR, "CHARACTER": types.CHARACTER, "DOUBLE": types.DOUBLE,
		"INT": types.INT, "INT2": types.INT2, "INT4": types.INT4, "INT8": types.INT8, "INTEGER": types.INTEGER,
		"PATH": types.PATH, "PRECISION": types.PRECISION, "REAL": types.REAL, "SMALLINT": types.SMALLINT, "STDIN": types.STDIN,
		"TEXT": types.TEXT, "VARBINARY": types.VARBINARY, "VARCHAR": types.VARCHAR,
	}
	knownNames = map[string]Ident{
		"btree": types.BTREE, "columns": types.COLUMNS, "config": types.CONFIG, "constraints": types.CONSTRAINTS,
		"count": types.COUNT, "count_all": types.COUNT_ALL, "databases": types.DATABASES, "description": types.DESCRIPTION,
		"field": types.FIELD, "flags": types.FLAGS, "indexes": types.INDEXES, "info": types.INFO, "maho": types.MAHO,
		"metadata": types.METADATA, "primary": types.PRIMARY_QUOTED, "private": types.PRIVATE, "public": types.PUBLIC,
		"__rowid": types.ROWID, "schemas": types.SCHEMAS, "sequences": types.SEQUENCES, "system": types.SYSTEM,
		"tables": types.TABLES, "tree": types.TREE,
	}
)

type Ident = types.Identifier

// refSpelling is the identity of a name and its text.
func refSpelling(s string, quoted bool) (class, text string) {
	if !quoted {
		up := strings.Map(unicode.ToUpper, s)
		if _, ok := reservedWords[up]; ok {
			return "keyword " + up, up
		}
		if _, ok := plainWords[up]; ok {
			return "keyword " + up, up
		}
		s = strings.Map(unicode.ToLower, s)
	}
	n := 0
	for k, c := range s {
		if k+utf8.RuneLen(c) > types.MaxIdentifier {
			break
		}
		n = k + utf8.RuneLen(c)
	}
	return "name " + s[:n], s[:n]
}

// idTable remembers what every name was, for the whole of a run.
type idTable struct {
	mu      sync.Mutex
	byClass map[string]Ident
	byID    map[Ident]string
	texts   map[Ident]string
}

func newIDTable() *idTable {
	return &idTable{byClass: map[string]Ident{}, byID: map[Ident]string{}, texts: map[Ident]string{}}
}

func (it *idTable) see(w *Worker, s string, quoted bool) Ident {
	w.r.trans.Add(1)
	got := types.ID(s, quoted)
	text := got.String()
	again := types.ID(s, quoted)
	class, want := refSpelling(s, quoted)

	it.mu.Lock()
	defer it.mu.Unlock()
	desc := fmt.Sprintf("%q (quoted %v)", s, quoted)
	if again != got {
		w.Fail("again", "%s: got identifier %d and then %d", desc, got, again)
	}
	if text != want {
		w.Fail("text", "%s: text is %q want %q", desc, text, want)
	}
	if was, ok := it.byClass[class]; ok && was != got {
		w.Fail("same", "%s: got identifier %d (%q); the same name was %d (%q)", desc, got, text, was, it.texts[was])
	} else if !ok {
		it.byClass[class] = got
	}
	if was, ok := it.byID[got]; ok && was != class {
		w.Fail("different", "%s: got identifier %d (%q) which is also %s", desc, got, text, was)
	} else if !ok {
		it.byID[got] = class
		it.texts[got] = want
	}
	if strings.HasPrefix(class, "name ") {
		if q := types.ID(text, true); q != got {
			w.Fail("quoted-again", "%s: identifier %d with text %q; quoted again it is %d", desc, got, text, q)
		}
		if got.IsReserved() {
			w.Fail("reserved", "%s: is reserved", desc)
		}
	} else if _, res := reservedWords[want]; res != got.IsReserved() {
		w.Fail("reserved", "%s: reserved is %v", desc, got.IsReserved())
	}
	w.r.State(hash64(class))
	return got
}

func mixCase(s string, mask int) string {
	b := []byte(s)
	for k := range b {
		if mask>>(k%8)&1 == 1 {
			b[k] = byte(unicode.ToLower(rune(b[k])))
		}
	}
	return string(b)
}

var freshSeq atomic.Int64

func checkC13(r *Run) {
	it := newIDTable()

	// Every keyword and known name, in several cases, is its own identifier.
	type kw struct {
		name string
		id   Ident
		kind int
	}
	var kws []kw
	for _, m := range []map[string]Ident{reservedWords, plainWords, knownNames} {
		for s, i := range m {
			kind := 0
			if m[s] == knownNames[s] {
				kind = 1
			}
			kws = append(kws, kw{s, i, kind})
		}
	}
	sortKW(kws, func(a, b kw) bool { return a.name < b.name })
	r.Cases("keywords", int64(len(kws)), func(w *Worker, i int64) {
		k := kws[i]
		for mask := 0; mask < 256; mask++ {
			s := mixCase(k.name, mask)
			if k.kind == 1 {
				s = mixCase(strings.ToUpper(k.name), mask)
			}
			got := it.see(w, s, false)
			if k.kind == 0 || k.name != "primary" {
				if got != k.id {
					w.Fail("known", "%q: got identifier %d; want %d", s, got, k.id)
				}
			}
			q := it.see(w, s, true)
			if want, ok := knownNames[s]; ok && q != want {
				w.Fail("known", "%q quoted: got identifier %d; want %d", s, q, want)
			}
			for _, t := range []string{s + "x", "x" + s, s[1:], s[:len(s)-1], s + "_", s + " "} {
				if t == "" {
					continue
				}
				it.see(w, t, false)
				it.see(w, t, true)
			}
		}
	})

	alpha := []string{"a", "A", "b", "B", "0", "_", "$", "é", "É", "日", " ", "\"", "z", "Z"}
	na := int64(len(alpha))
	for d := 1; d <= Pick(r, 4, 5); d++ {
		r.Cases(fmt.Sprintf("names/%d", d), Power(na, d), func(w *Worker, i int64) {
			var b strings.Builder
			for _, k := range SeqDigits(i, na, d, nil) {
				b.WriteString(alpha[k])
			}
			it.see(w, b.String(), i&1 == 0)
			it.see(w, b.String(), i&1 == 1)
			if i%9973 == 99 {
				w.r.Sample(fmt.Sprintf("%q quoted and not", b.String()))
			}
		})
	}

	// Long names: around the limit, with every width of character across it.
	fills := []string{"a", "A", "é", "日", "𝄞", "Ⱥ", "É", "ⱥ", "\u2126", "\u212b"}
	nf := int64(len(fills))
	r.Cases("long", nf*nf*24*2, func(w *Worker, i int64) {
		g := Digits(i, nf, nf, 24, 2)
		for extra := 0; extra < 4; extra++ {
			s := ""
			for len(s) < 112+g[2]-1 {
				s += fills[g[0]]
			}
			for k := 0; k < 6; k++ {
				s += fills[g[1]]
			}
			s = strings.Repeat("x", extra) + s
			it.see(w, s, g[3] == 0)
			it.see(w, s+"tail", g[3] == 1)
			it.see(w, s+"another tail", g[3] == 0)
		}
	})

	// Every order in which the spellings of new names are first used.
	variants := []func(p string) (string, bool){
		func(p string) (string, bool) { return p + "new", false },
		func(p string) (string, bool) { return strings.ToUpper(p) + "New", false },
		func(p string) (string, bool) { return p + "new", true },
		func(p string) (string, bool) { return p + "New", true },
		func(p string) (string, bool) { return p + strings.Repeat("l", 130-len(p)), false },
		func(p string) (string, bool) { return p + strings.Repeat("l", 128-len(p)) + "other", true },
		func(p string) (string, bool) { return p + strings.Repeat("l", 127-len(p)) + "é", true },
		func(p string) (string, bool) { return p + strings.Repeat("l", 127-len(p)), true },
	}
	nv := int64(len(variants))
	vd := Pick(r, 4, 6)
	r.Cases("orders", Power(nv, vd), func(w *Worker, i int64) {
		p := fmt.Sprintf("f%08d", freshSeq.Add(1))
		seen := map[Ident]string{}
		for _, k := range SeqDigits(i, nv, vd, nil) {
			s, q := variants[k](p)
			got := it.see(w, s, q)
			seen[got] = got.String()
			for x, t := range seen {
				if x.String() != t {
					w.Fail("text-changed", "the text of identifier %d changed from %q to %q", x, t, x.String())
				}
			}
		}
	})

	r.Cases("stable", 1, func(w *Worker, i int64) {
		for x, t := range it.texts {
			if x.String() != t {
				w.Fail("text-changed", "the text of identifier %d changed from %q to %q", x, t, x.String())
			}
		}
		for class, x := range it.byClass {
			if name, ok := strings.CutPrefix(class, "name "); ok && types.ID(name, true) != x {
				w.Fail("same", "%q: was identifier %d and now is %d", name, x, types.ID(name, true))
			}
		}
	})
	r.Assume("names are valid UTF-8",
		"characters whose upper or lower case is an ASCII letter (long s, dotless i, dotted I, kelvin) are not used")
}

func sortKW[T any](s []T, less func(a, b T) bool) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(s[j], s[j-1]); j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func sameTableType(a, b *engine.TableType) bool {
	if a.Version != b.Version || len(a.ColumnNames) != len(b.ColumnNames) || len(a.ColumnTypes) != len(b.ColumnTypes) ||
		len(a.Key) != len(b.Key) || len(a.ColumnDefaults) != len(b.ColumnDefaults) || len(a.Indexes) != len(b.Indexes) {
		return false
	}
	for i := range a.ColumnNames {
		if a.ColumnNames[i] != b.ColumnNames[i] {
			return false
		}
	}
	for i := range a.ColumnTypes {
		if a.ColumnTypes[i] != b.ColumnTypes[i] {
			return false
		}
	}
	for i := range a.Key {
		if a.Key[i] != b.Key[i] {
			return false
		}
	}
	for i := range a.Indexes {
		x, y := a.Indexes[i], b.Indexes[i]
		if x.Name != y.Name || len(x.Key) != len(y.Key) {
			return false
		}
		for j := range x.Key {
			if x.Key[j] != y.Key[j] {
				return false
			}
		}
	}
	return true
}

func checkC15(r *Run) {
	var idents []Ident
	seen := map[Ident]bool{}
	add := func(x Ident) {
		if !seen[x] {
			seen[x] = true
			idents = append(idents, x)
		}
	}
	var words []string
	for _, m := range []map[string]Ident{reservedWords, plainWords, knownNames} {
		for s := range m {
			words = append(words, s)
		}
	}
	sortKW(words, func(a, b string) bool { return a < b })
	for _, s := range words {
		for _, t := range []string{s, strings.ToUpper(s), strings.ToLower(s), strings.ToUpper(s[:1]) + strings.ToLower(s[1:])} {
			add(id(t))
			add(qid(t))
		}
	}
	for _, s := range append(strs([]string{"a", "A", "\x00", "\x01", "é", " "}, 3), strings.Repeat("n", 128),
		strings.Repeat("é", 64), "Mixed Case", "with\nnewline", "\"quoted\"", "日本語", "0") {
		add(qid(s))
		add(id(s))
	}

	rt := func(w *Worker, tt *engine.TableType) {
		w.r.trans.Add(1)
		buf, err := tt.Encode()
		if err != nil {
			w.Fail("encode", "encode %#v: %s", tt, err)
			return
		}
		got, err := engine.DecodeTableType(buf)
		if err != nil {
			w.Fail("decode", "decode %#v: %s", tt, err)
		} else if !sameTableType(tt, got) {
			w.Fail("round", "encoded %s; decoded %s", fmtTT(tt), fmtTT(got))
		}
		w.r.State(hash64(fmtTT(tt)))
	}

	r.Cases("identifiers", int64(len(idents)), func(w *Worker, i int64) {
		x := idents[i]
		rt(w, &engine.TableType{Version: 1, ColumnNames: []Ident{x}, ColumnTypes: cts(intNN), Key: []types.ColumnKey{ck(0, false)}})
		rt(w, &engine.TableType{Version: 1, ColumnNames: []Ident{idents[0], x, idents[(i+1)%int64(len(idents))]},
			ColumnTypes: cts(intNN, str4N, boolN), Key: []types.ColumnKey{ck(1, true)},
			Indexes: []engine.IndexType{{Name: x, Key: []types.ColumnKey{ck(0, false)}}}})

		// By itself and in other containers.
		for _, in := range []any{x, []Ident{x, x}, map[Ident]string{x: "v"}, types.TableName{Database: x, Schema: x, Table: x},
			types.TableName{Table: x}} {
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(in); err != nil {
				w.Fail("encode-id", "encode %d (%q): %s", x, x, err)
				continue
			}
			var err error
			ok := true
			switch in.(type) {
			case Ident:
				var o Ident
				err = gob.NewDecoder(&buf).Decode(&o)
				ok = o == x
			case []Ident:
				var o []Ident
				err = gob.NewDecoder(&buf).Decode(&o)
				ok = len(o) == 2 && o[0] == x && o[1] == x
			case map[Ident]string:
				var o map[Ident]string
				err = gob.NewDecoder(&buf).Decode(&o)
				ok = len(o) == 1 && o[x] == "v"
			case types.TableName:
				var o types.TableName
				err = gob.NewDecoder(&buf).Decode(&o)
				ok = o == in
			}
			if err != nil || !ok {
				w.Fail("round-id", "identifier %d (%q) in %T: %v; not the same", x, x, in, err)
			}
		}

		// As the names of a stored table.
		if x != types.ROWID {
			st, _ := basic.NewStore("")
			tx := st.Begin()
			tn := types.TableName{Database: x, Schema: x, Table: x}
			o, txt := try(func() error {
				err := tx.CreateTable(ctx, 20, tn, []Ident{x}, cts(intNN), []types.ColumnKey{ck(0, false)})
				if err != nil {
					return err
				}
				tbl, err := tx.OpenTable(ctx, 20, tn, []Ident{x}, cts(intNN), []types.ColumnKey{ck(0, false)})
				if err != nil {
					return err
				}
				if tbl.Name() != tn || len(tbl.ColumnNames()) != 1 || tbl.ColumnNames()[0] != x {
					return fmt.Errorf("the names are %s and %v", tbl.Name(), tbl.ColumnNames())
				}
				return nil
			})
			if o != oOK {
				w.Fail("stored", "identifier %d (%q) as the names of a stored table: %s %s", x, x, o, txt)
			}
			tx.Rollback()
		}
		if i%61 == 7 {
			w.r.Sample(fmt.Sprintf("identifier %d (%q) in definitions, containers, and as the names of a stored table", x, x))
		}
	})

	// Every column type, alone and in pairs; every key; indexes.
	var all []types.ColumnType
	for _, vt := range []types.ValueType{types.UnknownType, types.BoolType, types.StringType, types.BytesType,
		types.Float64Type, types.Int64Type} {
		for _, sz := range []uint32{0, 1, 2, 4, 8, 127, 128, 4096, types.MaxColumnSize, math.MaxUint32} {
			for b := 0; b < 4; b++ {
				all = append(all, types.ColumnType{Type: vt, Size: sz, Fixed: b&1 == 1, NotNull: b&2 == 2})
			}
		}
	}
	n := int64(len(all))
	r.Cases("types", n*n, func(w *Worker, i int64) {
		a, b := all[i/n], all[i%n]
		rt(w, &engine.TableType{Version: uint32(i), ColumnNames: ids("a", "b"), ColumnTypes: cts(a, b),
			Key: []types.ColumnKey{ck(int(i%2), i%3 == 0)}})
	})
	var keys [][]types.ColumnKey
	keys = append(keys, nil)
	for m := 1; m <= 4; m++ {
		for k := int64(0); k < Power(8, m); k++ {
			var key []types.ColumnKey
			for _, c := range SeqDigits(k, 8, m, nil) {
				key = append(key, ck(c/2*(1+c/2*50), c%2 == 1))
			}
			keys = append(keys, key)
		}
	}
	r.Cases("keys", int64(len(keys)), func(w *Worker, i int64) {
		var xs []engine.IndexType
		for k := int64(0); k < i%4; k++ {
			xs = append(xs, engine.IndexType{Name: idents[(i*7+k)%int64(len(idents))], Key: keys[(i*31+k*17)%int64(len(keys))]})
		}
		rt(w, &engine.TableType{Version: 1, ColumnNames: ids("a", "b", "c", "d"), ColumnTypes: cts(intNN, intN, str4N, boolN),
			Key: keys[i], Indexes: xs})
	})

	// Definitions with many columns, keys of many columns, and many indexes, by themselves and stored.
	sizes := []int{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1025}
	const nameKinds, keyKinds = 4, 4
	idxs := []int{0, 1, 17, 65, 257}
	r.Cases("large", int64(len(sizes)*nameKinds*keyKinds*len(idxs)), func(w *Worker, i int64) {
		ds := Digits(i, int64(len(sizes)), nameKinds, keyKinds, int64(len(idxs)))
		n := sizes[ds[0]]
		if idxs[ds[3]] > 17 && n > 600 {
			return
		}
		tt := &engine.TableType{Version: uint32(n)}
		for c := 0; c < n; c++ {
			var x Ident
			switch ds[1] {
			case 0:
				x = id(fmt.Sprintf("c%d", c))
			case 1:
				x = qid(fmt.Sprintf("C%0127d", c))
			case 2:
				x = qid(strings.Repeat("é", 60) + fmt.Sprint(c))
			case 3:
				x = idents[c%len(idents)]
			}
			tt.ColumnNames = append(tt.ColumnNames, x)
			tt.ColumnTypes = append(tt.ColumnTypes, all[(c*7+ds[2])%len(all)])
		}
		switch ds[2] {
		case 0:
			tt.Key = []types.ColumnKey{ck(n-1, false)}
		case 1:
			tt.Key = []types.ColumnKey{ck(n-1, true), ck(0, true), ck(n/2, false)}
		default:
			for c := range tt.ColumnNames {
				tt.Key = append(tt.Key, ck((c+n/2)%n, ds[2] == 2 || c%3 == 0))
			}
		}
		for k := 0; k < idxs[ds[3]]; k++ {
			ix := engine.IndexType{Name: tt.ColumnNames[k%n]}
			for c := 0; c <= k%5; c++ {
				ix.Key = append(ix.Key, ck((k+c*3)%n, (k+c)%2 == 0))
			}
			tt.Indexes = append(tt.Indexes, ix)
		}
		rt(w, tt)

		if ds[3] > 0 || ds[1] == 3 {
			return // Indexes are not stored there, and the names must be different.
		}
		st, _ := basic.NewStore("")
		tx := st.Begin()
		tn := types.TableName{Database: id("d"), Schema: id("s"), Table: id("t")}
		o, txt := try(func() error {
			err := tx.CreateTable(ctx, 20, tn, tt.ColumnNames, tt.ColumnTypes, tt.Key)
			if err != nil {
				return err
			}
			tbl, err := tx.OpenTable(ctx, 20, tn, tt.ColumnNames, tt.ColumnTypes, tt.Key)
			if err != nil {
				return err
			}
			got := &engine.TableType{Version: tt.Version, ColumnNames: tbl.ColumnNames(), ColumnTypes: tbl.ColumnTypes(), Key: tbl.Key()}
			if !sameTableType(tt, got) {
				return fmt.Errorf("the definition is different")
			}
			return nil
		})
		if o != oOK {
			w.Fail("stored-large", "%d columns, names %d, key %d: %s %s", n, ds[1], ds[2], o, txt)
		}
		tx.Rollback()
	})

	// Malformed: every truncation and every change of a byte.
	mal := []*engine.TableType{
		{Version: 1, ColumnNames: []Ident{types.TEXT, qid("x")}, ColumnTypes: cts(intNN, str4N), Key: []types.ColumnKey{ck(0, true)},
			Indexes: []engine.IndexType{{Name: types.PRIMARY_QUOTED, Key: []types.ColumnKey{ck(1, false)}}}},
		{},
	}
	for mx, tt := range mal {
		buf, err := tt.Encode()
		if err != nil {
			continue
		}
		step := int64(Pick(r, 5, 1))
		per := 1 + 255/step + 1
		r.Cases(fmt.Sprintf("malformed/%d", mx), int64(len(buf))*per, func(w *Worker, i int64) {
			p, c := i/per, i%per
			b := append([]byte{}, buf...)
			if c == 0 {
				b = b[:p]
			} else if b[p]+byte((c-1)*step) == b[p] {
				b[p] ^= 0x80
			} else {
				b[p] += byte((c - 1) * step)
			}
			w.r.trans.Add(1)
			var got *engine.TableType
			o, txt := try(func() error {
				var err error
				got, err = engine.DecodeTableType(b)
				return err
			})
			if o == oPanic {
				w.Fail("malformed", "decode of %x: %s", b, txt)
			} else if o == oOK && c == 0 {
				w.Fail("truncated", "decode of the truncated %x: got %s", b, fmtTT(got))
			}
		})
	}
	r.Cases("malformed-id", 256*257, func(w *Worker, i int64) {
		var b []byte
		if i/257 > 0 || i%257 > 0 {
			b = append(b, byte(i/257))
		}
		if i%257 > 0 {
			b = append(b, byte(i%257-1))
		}
		var x Ident
		if o, txt := try(func() error { return x.GobDecode(b) }); o == oPanic {
			w.Fail("malformed-id", "decode of identifier %x: %s", b, txt)
		} else if o == oOK && len(b) == 0 {
			w.Fail("malformed-id", "decode of an empty identifier succeeded")
		}
	})
	_ = storage.EngineTableId
	r.Assume("definitions have no column defaults: nothing creates one")
}

func fmtTT(tt *engine.TableType) string {
	var b strings.Builder
	fmt.Fprintf(&b, "version %d columns", tt.Version)
	for _, x := range tt.ColumnNames {
		fmt.Fprintf(&b, " %d(%q)", int(x), x.String())
	}
	fmt.Fprintf(&b, " types")
	for _, ct := range tt.ColumnTypes {
		fmt.Fprintf(&b, " {%d %d %v %v}", ct.Type, ct.Size, ct.Fixed, ct.NotNull)
	}
	fmt.Fprintf(&b, " key %v", tt.Key)
	for _, x := range tt.Indexes {
		fmt.Fprintf(&b, " index %d(%q) %v", int(x.Name), x.Name.String(), x.Key)
	}
	return b.String()
}
