// A canonical form of statements and expressions, independent of pointers and values, of nil and
// empty lists, and (optionally) of parentheses.
package main

import (
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type dumper struct {
	sb     strings.Builder
	parens bool // parentheses matter
	depth  int
}

var (
	identType  = reflect.TypeOf(types.Identifier(0))
	readerType = reflect.TypeOf((*io.RuneReader)(nil)).Elem()
)

func (d *dumper) dump(v reflect.Value) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 100000 {
		d.sb.WriteString("<deep>")
		return
	}

	switch v.Kind() {
	case reflect.Invalid:
		d.sb.WriteString("nil")
		return
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			d.sb.WriteString("nil")
			return
		}
		d.dump(v.Elem())
		return
	}

	if !d.parens {
		if ue, ok := v.Interface().(sql.UnaryExpr); ok && ue.Op == sql.NoOp {
			d.dump(reflect.ValueOf(ue.Expr))
			return
		}
	}

	if v.Type() == identType {
		id := v.Interface().(types.Identifier)
		if id == 0 {
			d.sb.WriteString("_")
		} else {
			fmt.Fprintf(&d.sb, "`%s`%d", id, int(id))
		}
		return
	}

	switch v.Kind() {
	case reflect.Struct:
		d.sb.WriteString(v.Type().Name())
		d.sb.WriteByte('{')
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() || f.Type == readerType {
				continue
			}
			fv := v.Field(i)
			if empty(fv) {
				continue
			}
			if !first {
				d.sb.WriteByte(' ')
			}
			first = false
			d.sb.WriteString(f.Name)
			d.sb.WriteByte(':')
			d.dump(fv)
		}
		d.sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&d.sb, "%s%x", v.Type().Name(), v.Bytes())
			return
		}
		d.sb.WriteString(v.Type().Name())
		d.sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.sb.WriteByte(' ')
			}
			d.dump(v.Index(i))
		}
		d.sb.WriteByte(']')
	case reflect.Map:
		var ss []string
		for _, k := range v.MapKeys() {
			e := &dumper{parens: d.parens}
			e.dump(k)
			e.sb.WriteByte('=')
			e.dump(v.MapIndex(k))
			ss = append(ss, e.sb.String())
		}
		sort.Strings(ss)
		fmt.Fprintf(&d.sb, "map%q", ss)
	case reflect.String:
		fmt.Fprintf(&d.sb, "%s%q", v.Type().Name(), v.String())
	case reflect.Float64:
		fmt.Fprintf(&d.sb, "%s%v", v.Type().Name(), v.Float())
	default:
		fmt.Fprintf(&d.sb, "%s.%d", v.Type().Name(), number(v))
	}
}

// empty is whether v is the zero value or an empty list, except for a list of expressions, types,
// or rows: those have an element for each of another list.
func empty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Pointer, reflect.Interface:
		return v.IsNil()
	}
	return v.IsZero()
}

func number(v reflect.Value) int64 {
	switch {
	case v.CanInt():
		return v.Int()
	case v.CanUint():
		return int64(v.Uint())
	case v.Kind() == reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	}
	panic(fmt.Sprintf("unexpected kind: %s", v.Kind()))
}

// dumpAST returns the canonical form; parens is whether parentheses are part of it.
func dumpAST(x any, parens bool) string {
	d := &dumper{parens: parens}
	d.dump(reflect.ValueOf(x))
	return d.sb.String()
}
