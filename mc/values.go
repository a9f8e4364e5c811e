// Values: domains, a reference order, and canonical forms. Nothing here uses the code under test
// other than its exported types.
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/leftmike/maho/types"
)

type (
	Value = types.Value
	Row   = types.Row
	I     = types.Int64Value
	F     = types.Float64Value
	S     = types.StringValue
	B     = types.BytesValue
	T     = types.BoolValue
)

// canon is the identity of a value: type and exact contents.
func canon(v Value) string {
	switch v := v.(type) {
	case nil:
		return "N"
	case types.BoolValue:
		if v {
			return "T"
		}
		return "F"
	case types.Int64Value:
		return fmt.Sprintf("i%d", int64(v))
	case types.Float64Value:
		if math.IsNaN(float64(v)) {
			return "fNaN"
		}
		return fmt.Sprintf("f%016x", math.Float64bits(float64(v)))
	case types.StringValue:
		return "s" + string(v) + "\x00\xff"
	case types.BytesValue:
		return "b" + string(v) + "\x00\xff"
	}
	return fmt.Sprintf("?%T", v)
}

func canonRow(row []Value) string {
	var b strings.Builder
	for _, v := range row {
		b.WriteString(canon(v))
		b.WriteByte('|')
	}
	return b.String()
}

func sameRow(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if canon(a[i]) != canon(b[i]) {
			return false
		}
	}
	return true
}

func fmtValue(v Value) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case types.StringValue:
		return fmt.Sprintf("%q", string(v))
	case types.BytesValue:
		return fmt.Sprintf("x'%x'", []byte(v))
	case types.Float64Value:
		return fmt.Sprintf("%v(float)", float64(v))
	}
	return fmt.Sprintf("%v", v)
}

func fmtRow(row []Value) string {
	if row == nil {
		return "nil"
	}
	var ss []string
	for _, v := range row {
		ss = append(ss, fmtValue(v))
	}
	return "(" + strings.Join(ss, ", ") + ")"
}

func fmtRows(rows [][]Value) string {
	var ss []string
	for _, r := range rows {
		ss = append(ss, fmtRow(r))
	}
	return "[" + strings.Join(ss, " ") + "]"
}

// copyValue and copyRow share no memory with the original.
func copyValue(v Value) Value {
	if b, ok := v.(types.BytesValue); ok {
		return types.BytesValue(append([]byte{}, b...))
	}
	return v
}

func copyRow(row []Value) []Value {
	if row == nil {
		return nil
	}
	nrow := make([]Value, len(row))
	for i, v := range row {
		nrow[i] = copyValue(v)
	}
	return nrow
}

func sign(n int) int {
	if n < 0 {
		return -1
	} else if n > 0 {
		return 1
	}
	return 0
}

// exact is the exact value of a finite number.
func exact(v Value) *big.Float {
	switch v := v.(type) {
	case types.Int64Value:
		return new(big.Float).SetPrec(128).SetInt64(int64(v))
	case types.Float64Value:
		return new(big.Float).SetPrec(128).SetFloat64(float64(v))
	}
	panic("not a number")
}

func isNaN(v Value) bool {
	f, ok := v.(types.Float64Value)
	return ok && math.IsNaN(float64(f))
}

func rank(v Value) int {
	switch v.(type) {
	case nil:
		return 0
	case types.BoolValue:
		return 1
	case types.Int64Value, types.Float64Value:
		return 2
	case types.StringValue:
		return 3
	case types.BytesValue:
		return 4
	}
	panic("unknown value")
}

// refCompare is the order of values: NULL, booleans, numbers (NaN before all other numbers,
// compared exactly), strings, and bytes.
func refCompare(a, b Value) int {
	ra, rb := rank(a), rank(b)
	if ra != rb {
		return sign(ra - rb)
	}
	switch ra {
	case 0:
		return 0
	case 1:
		x, y := 0, 0
		if a.(types.BoolValue) {
			x = 1
		}
		if b.(types.BoolValue) {
			y = 1
		}
		return sign(x - y)
	case 2:
		na, nb := isNaN(a), isNaN(b)
		if na || nb {
			if na && nb {
				return 0
			} else if na {
				return -1
			}
			return 1
		}
		if x, ok := a.(types.Int64Value); ok {
			if y, ok := b.(types.Int64Value); ok {
				if x < y {
					return -1
				} else if x > y {
					return 1
				}
				return 0
			}
		}
		return exact(a).Cmp(exact(b))
	case 3:
		return strings.Compare(string(a.(types.StringValue)), string(b.(types.StringValue)))
	default:
		x, y := a.(types.BytesValue), b.(types.BytesValue)
		return strings.Compare(string(x), string(y))
	}
}

// refKeyCompare compares two rows by a key: NULLs are first for both directions; the rest of the
// values are in order or in the reverse of the order.
func refKeyCompare(key []types.ColumnKey, a, b []Value) int {
	for _, ck := range key {
		x, y := a[ck.Column()], b[ck.Column()]
		c := refCompare(x, y)
		if c == 0 {
			continue
		}
		if x != nil && y != nil && ck.Reverse() {
			c = -c
		}
		return c
	}
	return 0
}

func ck(num int, reverse bool) types.ColumnKey {
	return types.MakeColumnKey(types.ColumnNum(num), reverse)
}

func id(s string) types.Identifier { return types.ID(s, false) }

func qid(s string) types.Identifier { return types.ID(s, true) }

func ids(ss ...string) []types.Identifier {
	var r []types.Identifier
	for _, s := range ss {
		r = append(r, id(s))
	}
	return r
}

func sortRows(key []types.ColumnKey, rows [][]Value) {
	sort.SliceStable(rows, func(i, j int) bool { return refKeyCompare(key, rows[i], rows[j]) < 0 })
}

// A table of distinct results of running something: outcome classes.
type outcome int

const (
	oOK outcome = iota
	oErr
	oPanic
)

func (o outcome) String() string { return [...]string{"ok", "error", "panic"}[o] }

// try runs fn; the error or panic is returned as text for reports only.
func try(fn func() error) (o outcome, txt string) {
	defer func() {
		if p := recover(); p != nil {
			o, txt = oPanic, fmt.Sprintf("panic: %v", p)
		}
	}()
	if err := fn(); err != nil {
		return oErr, err.Error()
	}
	return oOK, ""
}

func subsets(n int) int { return 1 << n }
