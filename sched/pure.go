package main

import (
	"errors"
	"io"
	"reflect"
	"strconv"
	"strings"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/scanner"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/parser/token"
	"github.com/leftmike/maho/types"

	"mahosched/vsync"
)

// Programs whose threads share nothing, or share only what is read: each thread must get exactly
// what it gets alone.

type pureEnv struct {
	k     string // part of the names, so that each execution has names which are new
	stmts []sql.Stmt
	row   types.Row
	info  *engine.TypedInfo
	def   *engine.TableType
	buf   []byte
	ses   *evaluate.Session
	scts  []types.ColumnType
	st    any // a struct of a new type
}

var (
	pureExec   int
	pureOps    = []func(e *pureEnv) string{}
	pureNames  = []string{}
	pureParses int // how many parse: the first ones
	pureAlone  = map[int]string{}

	pureKey = []types.ColumnKey{types.MakeColumnKey(0, true), types.MakeColumnKey(1, false),
		types.MakeColumnKey(2, true), types.MakeColumnKey(3, false)}
)

type pureStruct struct {
	ID   int64 `maho:"primary"`
	Name string
	Buf  []byte
	Ptr  *int32
}

func pureOp(name string, fn func(e *pureEnv) string) {
	pureOps = append(pureOps, fn)
	pureNames = append(pureNames, name)
}

// stepReader lets another thread run before every character.
type stepReader struct {
	text []rune
	pos  int
	fail error // instead of the end
}

func (sr *stepReader) ReadRune() (rune, int, error) {
	vsync.Point()
	if sr.pos == len(sr.text) {
		if sr.fail != nil {
			return 0, 0, sr.fail
		}
		return 0, 0, io.EOF
	}
	r := sr.text[sr.pos]
	sr.pos++
	return r, 1, nil
}

// named replaces # by what makes the names new.
func (e *pureEnv) named(text string) string { return strings.ReplaceAll(text, "#", e.k) }

func (e *pureEnv) reader(text string) io.RuneReader {
	return &stepReader{text: []rune(e.named(text))}
}

func pureParse(text string) {
	pureOp("parse "+text, func(e *pureEnv) string {
		p := parser.NewParser(e.reader(text), "x")
		var got []string
		for n := 0; n < 6; n++ {
			stmt, err := p.Parse()
			if err == io.EOF {
				got = append(got, "EOF")
				break
			} else if err != nil {
				got = append(got, err.Error())
				continue
			} else if stmt == nil {
				got = append(got, "nothing")
				continue
			}
			got = append(got, stmt.String())
			if cp, ok := stmt.(*sql.Copy); ok {
				var rs []rune
				for len(rs) < 5 {
					r, _, err := cp.From.ReadRune()
					if err != nil {
						break
					}
					rs = append(rs, r)
				}
				got = append(got, strconv.Itoa(cp.FromLine)+" "+string(rs))
			}
		}
		return strings.Join(got, " / ")
	})
}

func pureScan(text string) {
	pureOp("scan "+text, func(e *pureEnv) string {
		var s scanner.Scanner
		s.Init(e.reader(text), "x")
		var ctxs []*scanner.ScanCtx
		for n := 0; n < 9; n++ {
			sctx := &scanner.ScanCtx{}
			s.Scan(sctx)
			ctxs = append(ctxs, sctx)
			if sctx.Token == token.EOF {
				break
			}
		}
		var got []string
		for _, c := range ctxs {
			s := strconv.Itoa(int(c.Token)) + "@" + strconv.Itoa(c.Position.Line) + ":" +
				strconv.Itoa(c.Position.Column)
			switch c.Token {
			case token.Error:
				s += c.Error.Error()
			case token.Identifier, token.Reserved:
				s += c.Identifier.String()
			case token.String:
				s += c.String
			case token.Bytes:
				s += string(c.Bytes)
			case token.Integer:
				s += strconv.FormatInt(c.Integer, 10)
			case token.Float:
				s += strconv.FormatFloat(c.Float, 'g', -1, 64)
			}
			got = append(got, s)
		}
		return strings.Join(got, " ")
	})
}

func pureExpr(text string) {
	pureOp("parse the expression "+text, func(e *pureEnv) string {
		ex, err := parser.NewParser(e.reader(text), "x").ParseExpr()
		if err != nil {
			return err.Error()
		}
		return ex.String()
	})
}

func printed(v types.Value, err error) string {
	if err != nil {
		return "error"
	}
	return types.FormatValue(v)
}

func init() {
	pureParse("begin;select * from t# where a#='x''#';")
	pureParse("insert into t# values(1,'#'),(x'0a',null);")
	pureParse("copy t# from stdin;\nab\n")
	pureParse("drop x 'y# ;show a#;")
	pureParse("create table t#(a# char(9) unique);")
	pureOp("parse what can not be read", func(e *pureEnv) string {
		err := errors.New("fail " + e.k)
		_, err1 := parser.NewParser(&stepReader{[]rune("values('a'"), 0, err}, "x").Parse()
		_, err2 := parser.NewParser(&stepReader{[]rune("begin 1"), 0, err}, "x").Parse()
		return err1.Error() + " " + err2.Error()
	})
	pureExpr("(a#+1)*-2.5||'#'")
	pureScan(`"A#" 'x#' e'\t#' 12`)
	pureScan("b'\\x41#' 1.5 >= /* # */ a# -- #")
	pureParses = len(pureOps)

	shared := []string{
		"select a# as b#, count(*) from t# as u#, s#.t# where not a# = '#' order by a# desc;",
		"create table if not exists d#.s#.t# (a# int not null default 1, b# varchar(9), " +
			"primary key (a# desc, b#));",
		"update t# set a# = default, b# = 'x#' where c# is null;",
		"insert into t# (a#, b#) values (1.5, x'00ff'), (true, null);",
	}
	for i := range shared {
		i := i
		pureOp("print the shared "+shared[i], func(e *pureEnv) string {
			return e.stmts[i].String()
		})
	}
	pureOp("encode the shared row", func(e *pureEnv) string {
		return string(encode.MakeKey(pureKey, e.row))
	})
	pureOp("print the shared row", func(e *pureEnv) string { return e.row.String() })
	pureOp("convert the shared row", func(e *pureEnv) string {
		row, err := types.ConvertRow(e.scts, e.row)
		if err != nil {
			return "error"
		}
		return row.String()
	})
	pureOp("convert values", func(e *pureEnv) string {
		var got []string
		for _, s := range []string{"12", " tRue ", "-1.5e7", "yes"} {
			for _, vt := range []types.ValueType{types.BoolType, types.StringType, types.BytesType,
				types.Float64Type, types.Int64Type} {

				got = append(got, printed(types.CastValue(vt, types.StringValue(s))))
			}
		}
		return strings.Join(got, " ")
	})
	pureOp("compare values", func(e *pureEnv) string {
		var got []string
		for _, a := range e.row {
			for _, b := range e.row {
				got = append(got, strconv.Itoa(types.Compare(a, b)))
			}
		}
		return strings.Join(got, " ")
	})
	pureOp("encode numbers", func(e *pureEnv) string {
		buf := encode.EncodeZigzag64(nil, -1234567)
		buf = encode.EncodeVarint(buf, 1<<40)
		buf = encode.EncodeUint32(buf, 77)
		rest, n, ok := encode.DecodeZigzag64(buf)
		rest, u, ok2 := encode.DecodeVarint(rest)
		return string(buf) + strconv.FormatInt(n, 10) + strconv.FormatBool(ok) +
			strconv.FormatUint(u, 10) + strconv.FormatBool(ok2) + string(rest)
	})
	pureOp("encode and decode the shared definition", func(e *pureEnv) string {
		buf, err := e.def.Encode()
		if err != nil {
			return "error"
		}
		tt, err := engine.DecodeTableType(buf)
		if err != nil {
			return "error"
		}
		return showType(tt)
	})
	pureOp("decode the shared encoding", func(e *pureEnv) string {
		tt, err := engine.DecodeTableType(e.buf)
		if err != nil {
			return "error"
		}
		return showType(tt)
	})
	pureOp("make a definition from a struct", func(e *pureEnv) string {
		tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC,
			Table: types.ID("p"+e.k, false)}
		ti := engine.MakeTypedInfo(5000, tn, e.st)
		return showType(ti.TableType()) + ti.TableName().String()
	})
	pureOp("read the shared row as a struct", func(e *pureEnv) string {
		var ps pureStruct
		e.info.RowToStruct(types.Row{types.Int64Value(7), types.StringValue("n" + e.k),
			types.BytesValue("buf"), types.Int64Value(8)}, &ps)
		return strconv.FormatInt(ps.ID, 10) + ps.Name + string(ps.Buf) +
			strconv.Itoa(int(*ps.Ptr))
	})
	pureOp("resolve a name in the shared session", func(e *pureEnv) string {
		tn := e.ses.ResolveTable(types.TableName{Table: types.ID("t"+e.k, false)})
		sn := e.ses.ResolveSchema(types.SchemaName{Schema: types.ID("s"+e.k, false)})
		return tn.String() + sn.String()
	})
	pureOp("print types and tokens", func(e *pureEnv) string {
		var got []string
		for _, ct := range e.scts {
			got = append(got, ct.String())
		}
		for _, t := range []rune{token.Identifier, token.LessEqual, '*', token.EOF} {
			got = append(got, token.Format(t))
		}
		return strings.Join(got, " ")
	})

	newPureEnv = func() *pureEnv {
		pureExec++
		e := &pureEnv{k: strconv.Itoa(1000000 + pureExec)}
		for _, text := range shared {
			stmt, err := parser.NewParser(strings.NewReader(e.named(text)), "x").Parse()
			must(err)
			e.stmts = append(e.stmts, stmt)
		}
		e.row = types.Row{types.Int64Value(-5), types.StringValue("a\x00" + e.k),
			types.BytesValue("\xff\x00"), nil, types.Float64Value(1.5), types.BoolValue(true)}
		e.scts = []types.ColumnType{types.Int32ColType,
			{Type: types.StringType, Size: 20, Fixed: true},
			{Type: types.BytesType, Size: 4}, types.StringColType,
			{Type: types.Float64Type, Size: 8, NotNull: true}, types.BoolColType}
		id := func(s string) types.Identifier { return types.ID(s+e.k, false) }
		e.info = engine.MakeTypedInfo(6000, types.TableName{Database: types.MAHO,
			Schema: types.PUBLIC, Table: id("u")}, pureStruct{})
		e.st = reflect.Zero(reflect.StructOf([]reflect.StructField{
			{Name: "FldA" + e.k, Type: reflect.TypeOf(int64(0)), Tag: `maho:"primary"`},
			{Name: "FldB" + e.k, Type: reflect.TypeOf(""),
				Tag: reflect.StructTag(e.named(`maho:"name=n#,size=1#"`))},
		})).Interface()
		var cts []types.ColumnType
		cts = append(cts, e.scts...)
		e.def = &engine.TableType{Version: 3,
			ColumnNames: []types.Identifier{id("a"), id("b"), id("c"), id("d"), id("e"), id("f")},
			ColumnTypes: cts, Key: pureKey}
		buf, err := e.def.Encode()
		must(err)
		e.buf = buf
		e.ses = evaluate.NewSession(nil, id("db"), id("sn"))
		return e
	}
}

var newPureEnv func() *pureEnv

func showType(tt *engine.TableType) string {
	s := strconv.Itoa(int(tt.Version))
	for i, cn := range tt.ColumnNames {
		ct := tt.ColumnTypes[i]
		s += " " + cn.String() + " " + strconv.Itoa(int(ct.Type)) + "/" +
			strconv.Itoa(int(ct.Size)) + strconv.FormatBool(ct.Fixed) +
			strconv.FormatBool(ct.NotNull)
	}
	for _, ck := range tt.Key {
		s += " " + strconv.Itoa(int(ck))
	}
	return s
}

func pureScenario(ops ...int) *scenario {
	var names []string
	for _, o := range ops {
		names = append(names, pureNames[o])
	}
	return &scenario{
		name: strings.Join(names, "  ||  "),
		fresh: func() *instance {
			e := newPureEnv()
			got := make([]string, len(ops))
			ins := &instance{}
			for t, o := range ops {
				t, o := t, o
				ins.threads = append(ins.threads, []unit{func(rec *recorder) {
					got[t] = pureOps[o](e)
				}})
			}
			ins.judge = func(recs []*recorder) string {
				for t, o := range ops {
					// Alone, which is after the first time that it was not.
					want, ok := pureAlone[o]
					if !ok {
						ae := newPureEnv()
						vsync.Run(nil, false, func() { want = pureOps[o](ae) })
						want = strings.ReplaceAll(want, ae.k, "#")
						pureAlone[o] = want
					}
					if g := strings.ReplaceAll(got[t], e.k, "#"); g != want {
						return "thread " + strconv.Itoa(t) + ": " + pureNames[o] + ": got " +
							strconv.Quote(g) + ", alone " + strconv.Quote(want)
					}
					recs[t].add(strconv.Itoa(len(want)))
				}
				return ""
			}
			return ins
		},
	}
}

func pureGroups(thorough bool) []group {
	n := len(pureOps)
	var all, pp [][2]int
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			all = append(all, [2]int{i, j})
			if j < pureParses {
				pp = append(pp, [2]int{i, j})
			}
		}
	}
	two := func(prs [][2]int) func(i int) []*scenario {
		return func(i int) []*scenario {
			return []*scenario{pureScenario(prs[i][0], prs[i][1])}
		}
	}
	three := func(i int) (scs []*scenario) {
		for k := pp[i][1]; k < pureParses; k++ {
			scs = append(scs, pureScenario(pp[i][0], pp[i][1], k))
		}
		return
	}
	gs := []group{
		{"1+1 operations", 1, true, false, len(all), two(all)},
		{"1+1 operations", 1, true, true, len(all), two(all)},
		{"1+1 parses", 2, false, false, len(pp), two(pp)},
	}
	if thorough {
		gs = append(gs, group{"1+1 operations", 2, true, false, len(all), two(all)},
			group{"1+1 operations", 2, true, true, len(all), two(all)},
			group{"1+1+1 parses", 1, false, false, len(pp), three})
	}
	for gdx := range gs {
		gs[gdx].Scope += gs[gdx].how()
	}
	return gs
}
