// C29: the rules of well formed statements.
package main

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/types"
)

// accepted is whether the text is parsed as exactly one statement.
func accepted(w *Worker, text string) bool {
	end := ""
	if strings.HasPrefix(text, "copy") {
		end = ";\n"
	}
	ps := parseAll(text+end, 5)
	w.r.trans.Add(1)
	return len(ps) == 1 && ps[0].err == nil && ps[0].stmt != nil
}

func judge(w *Worker, rule string, ok bool, text string) {
	got := accepted(w, text)
	if got && !ok {
		w.Fail(rule+"/accepted", "accepted: %s", text)
	} else if !got && ok {
		ps := parseAll(text, 5)
		w.Fail(rule+"/rejected", "rejected: %s: %v", text, ps)
	}
}

// An element of a table definition and what the rules need to know about it.
type ruleKey struct {
	name    string // the name given, or empty
	primary bool
	cols    []string // with a suffix of "-" if descending
}

type tableElem struct {
	text  string
	col   string
	names []string // given to constraints other than keys
	keys  []ruleKey
	bad   bool
}

func (k ruleKey) auto() string {
	s := ""
	for _, c := range k.cols {
		s += strings.ToLower(strings.TrimSuffix(c, "-")) + "_"
	}
	if k.primary {
		return s + "primary"
	}
	return s + "unique"
}

// judgeTable returns whether the elements are well formed, or not decided: the rules do not say
// whether names made up for keys can be the same.
func judgeTable(es []tableElem) (ok, decided bool) {
	cols := map[string]bool{}
	names := map[string]bool{}
	auto := map[string]bool{}
	keys := map[string]bool{}
	primary := false
	ok, decided = true, true
	for _, e := range es {
		if e.bad {
			ok = false
		}
		if e.col != "" {
			if cols[e.col] {
				ok = false
			}
			cols[e.col] = true
		}
		for _, n := range e.names {
			if names[n] {
				ok = false
			}
			names[n] = true
		}
		for _, k := range e.keys {
			if k.name != "" {
				if names[k.name] {
					ok = false
				}
				names[k.name] = true
			} else {
				if auto[k.auto()] {
					decided = false
				}
				auto[k.auto()] = true
			}
			if k.primary {
				if primary {
					ok = false
				}
				primary = true
			}
			s := strings.Join(k.cols, ",")
			if keys[s] {
				ok = false
			}
			keys[s] = true
			seen := map[string]bool{}
			for _, c := range k.cols {
				c = strings.TrimSuffix(c, "-")
				if seen[c] {
					ok = false
				}
				seen[c] = true
			}
		}
	}
	for n := range names {
		if auto[n] {
			decided = false
		}
	}
	if !ok {
		decided = true
	}
	return ok, decided
}

type colCons struct {
	text string
	kind string
	name string
}

var allColCons = []colCons{
	{"not null", "null", ""},
	{"default 1", "default", ""},
	{"primary key", "primary", ""},
	{"unique", "unique", ""},
	{"constraint c not null", "null", "c"},
	{"constraint D default 1 + 2", "default", "d"},
	{"constraint c primary key", "primary", "c"},
	{"constraint d unique", "unique", "d"},
	{"constraint \"c\" check (1)", "check", "c"},
	{"constraint C references t", "ref", "c"},
	{"check (a not in (select 1))", "check", ""},
	{"references t (x) on delete cascade", "ref", ""},
	{"constraint c", "dangling", "c"},
}

func columnElem(text, col string, cons []colCons) tableElem {
	e := tableElem{text: text + " int", col: col}
	seen := map[string]bool{}
	for i, c := range cons {
		if c.kind == "dangling" && i+1 < len(cons) && !strings.HasPrefix(cons[i+1].text, "constraint") {
			// It is the name of the next constraint.
			cons[i+1].name = c.name
			e.text += " " + c.text
			continue
		}
		e.text += " " + c.text
		switch c.kind {
		case "null", "default":
			if seen[c.kind] {
				e.bad = true
			}
			seen[c.kind] = true
			if c.name != "" {
				e.names = append(e.names, c.name)
			}
		case "primary", "unique":
			e.keys = append(e.keys, ruleKey{c.name, c.kind == "primary", []string{col}})
		case "check", "ref":
			if c.name != "" {
				e.names = append(e.names, c.name)
			}
		case "dangling":
			e.bad = true
		}
	}
	return e
}

func key(name string, primary bool, cols ...string) []ruleKey {
	return []ruleKey{{name, primary, cols}}
}

var tableElems = []tableElem{
	{text: "primary key (a)", keys: key("", true, "a")},
	{text: "primary key (b desc)", keys: key("", true, "b-")},
	{text: "unique (a)", keys: key("", false, "a")},
	{text: "unique (A desc)", keys: key("", false, "a-")},
	{text: "unique (a asc, b)", keys: key("", false, "a", "b")},
	{text: "unique (b, a)", keys: key("", false, "b", "a")},
	{text: "unique (a, A)", keys: key("", false, "a", "a")},
	{text: "unique (a, b, \"a\" desc)", keys: key("", false, "a", "b", "a-")},
	{text: "constraint c primary key (a, b)", keys: key("c", true, "a", "b")},
	{text: "constraint d primary key (b)", keys: key("d", true, "b")},
	{text: "constraint c unique (a desc)", keys: key("c", false, "a-")},
	{text: "constraint D unique (b desc, a)", keys: key("d", false, "b-", "a")},
	{text: "constraint c check (1 = 2)", names: []string{"c"}},
	{text: "check (c)"},
	{text: "foreign key (a, b) references x.t (a, b) on update no action"},
	{text: "constraint [d] foreign key (a) references t", names: []string{"d"}},
	{text: "constraint a_unique check (1)", names: []string{"a_unique"}},
	{text: "constraint c", bad: true},
	{text: "constraint d a int", bad: true},
	{text: "constraint e foreign (a)", bad: true},
}

// refFrom is the documented grammar of from lists.
type refFrom struct {
	toks []string
	pos  int
}

func (rf *refFrom) is(s string) bool {
	if rf.pos < len(rf.toks) && rf.toks[rf.pos] == s {
		rf.pos++
		return true
	}
	return false
}

func (rf *refFrom) list() bool {
	for {
		if !rf.from() {
			return false
		}
		if !rf.is(",") {
			return true
		}
	}
}

func (rf *refFrom) table() bool {
	if rf.is("(") {
		return rf.list() && rf.is(")")
	}
	if rf.is("(select 1)") {
		if !rf.is("x") { // an alias is required
			return false
		}
		if rf.is("(") { // aliases of columns
			for rf.is("x") {
				if !rf.is(",") {
					return rf.is(")")
				}
			}
			return false
		}
		return true
	}
	if !rf.is("x") {
		return false
	}
	rf.is("x") // an alias
	return true
}

func (rf *refFrom) from() bool {
	if !rf.table() {
		return false
	}
	for {
		if rf.is("cross join") {
			if !rf.table() {
				return false
			}
		} else if rf.is("join") || rf.is("left join") {
			if !rf.from() {
				return false
			}
			if !rf.is("on 1") && !rf.is("using (c)") {
				return false
			}
		} else {
			return true
		}
	}
}

func init() {
	checks["C29"] = func(r *Run) {
		r.Assume("names made up for keys without a name may or may not be allowed to be the same",
			"a size of 0 may or may not be allowed")

		checkGrammar(r)

		// Columns with every list of up to two constraints, and table constraints.
		cols := [][2]string{{"a", "a"}, {"b", "b"}, {"A", "a"}, {"\"A\"", "A"}}
		var one, two []tableElem
		for _, c := range cols {
			for n := 0; n <= 2; n++ {
				for i := int64(0); i < Power(int64(len(allColCons)), n); i++ {
					var cons []colCons
					for _, d := range SeqDigits(i, int64(len(allColCons)), n, nil) {
						cons = append(cons, allColCons[d])
					}
					e := columnElem(c[0], c[1], cons)
					if n < 2 {
						one = append(one, e)
					}
					two = append(two, e)
				}
			}
		}
		one = append(append([]tableElem{}, tableElems...), one...)
		two = append(append([]tableElem{}, tableElems...), two...)
		three := append(append([]tableElem{}, tableElems...),
			columnElem("a", "a", nil), columnElem("a", "a", allColCons[2:3]), columnElem("a", "a", allColCons[7:8]),
			columnElem("b", "b", nil), columnElem("b", "b", allColCons[4:5]), columnElem("b", "b", allColCons[3:4]))
		tables := func(scope string, pool []tableElem, n int) {
			r.Cases(scope, Power(int64(len(pool)), n), func(w *Worker, i int64) {
				var es []tableElem
				var texts []string
				for _, d := range SeqDigits(i, int64(len(pool)), n, nil) {
					es = append(es, pool[d])
					texts = append(texts, pool[d].text)
				}
				ok, decided := judgeTable(es)
				if !decided {
					return
				}
				w.r.State(hash64(texts...))
				judge(w, "table", ok, "create table t ("+strings.Join(texts, ", ")+")")
			})
		}
		tables("table/1", two, 1)
		tables("table/2", two, 2)
		tables("table/3", one, 3)
		tables("table/4", three, 4)
		if r.Thorough() {
			tables("table/5", three, 5)
		}
		three3 := columnElem("a", "a", nil)
		r.Cases("column/3", Power(int64(len(allColCons)), Pick(r, 4, 5)), func(w *Worker, i int64) {
			var cons []colCons
			for _, d := range SeqDigits(i, int64(len(allColCons)), Pick(r, 4, 5), nil) {
				cons = append(cons, allColCons[d])
			}
			e := columnElem("b", "b", cons)
			if ok, decided := judgeTable([]tableElem{three3, e}); decided {
				judge(w, "column", ok, "create table t (a int, "+e.text+")")
			}
		})

		// Lists of columns.
		spell := []string{"a", "b", "A", "\"a\"", "\"A\"", "text", "TEXT", "[Text]", "c"}
		ids := make([]types.Identifier, len(spell))
		for k, s := range spell {
			if strings.ContainsAny(s, "\"[") {
				ids[k] = types.ID(s[1:len(s)-1], true)
			} else {
				ids[k] = types.ID(s, false)
			}
		}
		lists := []struct{ name, before, after string }{
			{"insert", "insert into t (", ") values (1)"},
			{"copy", "copy t (", ") from stdin"},
			{"using", "select * from t join u using (", ")"},
			{"using-nested", "select * from t, u left join (v join w using (", ")) on 1"},
			{"index", "create index i on t (", ")"},
			{"unique-index", "create unique index i on t using btree (", ")"},
			{"primary", "create table t (z int, primary key (", "))"},
			{"unique", "create table t (constraint c unique (", "), z int)"},
		}
		for n := 0; n <= Pick(r, 4, 5); n++ {
			r.Cases(fmt.Sprintf("columns/%d", n), Power(int64(len(spell)), n)*int64(len(lists)), func(w *Worker, i int64) {
				l := lists[i%int64(len(lists))]
				seen := map[types.Identifier]bool{}
				ok := n > 0
				var ss []string
				for _, d := range SeqDigits(i/int64(len(lists)), int64(len(spell)), n, nil) {
					if seen[ids[d]] {
						ok = false
					}
					seen[ids[d]] = true
					ss = append(ss, spell[d])
				}
				judge(w, "columns-"+l.name, ok, l.before+strings.Join(ss, ", ")+l.after)
			})
		}

		// Rows of VALUES.
		values := []struct{ name, before, after string }{
			{"statement", "", ""},
			{"in", "select 1 where a in (", ")"},
			{"scalar", "select (", ") + 1"},
			{"from", "select * from (", ") as v"},
			{"any", "delete from t where a = any (", ")"},
		}
		for n := 1; n <= Pick(r, 5, 6); n++ {
			r.Cases(fmt.Sprintf("values/%d", n), Power(4, n)*int64(len(values)), func(w *Worker, i int64) {
				v := values[i%int64(len(values))]
				ok := true
				var rows []string
				ds := SeqDigits(i/int64(len(values)), 4, n, nil)
				for _, d := range ds {
					if d == 0 || d != ds[0] {
						ok = false
					}
					rows = append(rows, "("+strings.TrimSuffix(strings.Repeat("1, ", d), ", ")+")")
				}
				judge(w, "values-"+v.name, ok, v.before+"values "+strings.Join(rows, ", ")+v.after)
			})
		}

		// Every sequence of the pieces of a from list.
		pieces := []string{"x", "join", "on 1", "(", ")", "cross join", "using (c)", ",", "left join", "(select 1)"}
		for n := 0; n <= Pick(r, 6, 7); n++ {
			r.Cases(fmt.Sprintf("from/%d", n), Power(int64(len(pieces)), n), func(w *Worker, i int64) {
				rf := &refFrom{}
				for _, d := range SeqDigits(i, int64(len(pieces)), n, nil) {
					rf.toks = append(rf.toks, pieces[d])
				}
				ok := rf.list() && rf.pos == n
				if ok {
					w.r.State(hash64(rf.toks...))
				}
				judge(w, "from", ok, "select * from "+strings.Join(rf.toks, " "))
			})
		}
		// Longer ones which start well.
		for n := 1; n <= Pick(r, 5, 6); n++ {
			const ns = 5
			r.Cases(fmt.Sprintf("from-more/%d", n), Power(int64(len(pieces)-1), n)*ns, func(w *Worker, i int64) {
				rf := &refFrom{}
				switch i % ns {
				case 0:
					rf.toks = []string{"x", "join", "x", "on 1"}
				case 1:
					rf.toks = []string{"x", ",", "x"}
				case 2:
					rf.toks = []string{"(", "x", ")", "cross join", "x"}
				case 3:
					rf.toks = []string{"x", "left join", "x", "join", "x", "on 1"}
				case 4:
					rf.toks = []string{"(", "x", "join", "x"}
				}
				for _, d := range SeqDigits(i/ns, int64(len(pieces)-1), n, nil) {
					rf.toks = append(rf.toks, pieces[d])
				}
				ok := rf.list() && rf.pos == len(rf.toks)
				judge(w, "from", ok, "select * from "+strings.Join(rf.toks, " "))
			})
		}

		// Actions of foreign keys.
		actions := []string{"on delete cascade", "on update cascade", "on delete set null", "on update no action",
			"on delete restrict", "on update set default", "on delete", "on update set", "on cascade"}
		fks := []struct{ name, before, after string }{
			{"column", "create table t (a int references u ", ", b int)"},
			{"column-more", "create table t (a int references u (b) ", " not null)"},
			{"table", "create table t (a int, foreign key (a) references u ", ")"},
			{"table-more", "create table t (a int, constraint f foreign key (a) references x.y.z (a) ", ", b int)"},
			{"alter", "alter table t add foreign key (a) references u ", ""},
			{"alter-more", "alter table t drop constraint d, add constraint c foreign key (a) references u (a, b) ",
				", alter a drop default"},
		}
		for n := 0; n <= Pick(r, 4, 5); n++ {
			nf := int64(len(fks))
			r.Cases(fmt.Sprintf("actions/%d", n), Power(int64(len(actions)), n)*nf, func(w *Worker, i int64) {
				f := fks[i%nf]
				ok := true
				var del, upd int
				var ss []string
				for _, d := range SeqDigits(i/nf, int64(len(actions)), n, nil) {
					ss = append(ss, actions[d])
					if d >= 6 {
						ok = false
					} else if d%2 == 0 {
						del++
					} else {
						upd++
					}
				}
				judge(w, "actions-"+f.name, ok && del <= 1 && upd <= 1, f.before+strings.Join(ss, " ")+f.after)
			})
		}

		// Sizes.
		sizes := []struct {
			text string
			ok   bool
		}{{"", true}, {"(1)", true}, {"(2)", true}, {"(255)", true}, {"(65536)", true}, {"(2147483648)", true},
			{"(4294967293)", true}, {"(4294967294)", true}, {"(4294967295)", false}, {"(4294967296)", false},
			{"(4294967297)", false}, {"(9223372036854775807)", false}, {"(9223372036854775808)", false}, {"(-1)", false},
			{"(-4294967295)", false}, {"(-9223372036854775808)", false}, {"()", false}, {"(1.0)", false}, {"('1')", false},
			{"(1, 2)", false}, {"(a)", false}, {"(1", false}, {"1", false}, {"(1))", false}, {"(1)(1)", false}}
		r.Cases("sizes", int64(len(sizes)*len(genTypes)*3), func(w *Worker, i int64) {
			ds := Digits(i, int64(len(sizes)), int64(len(genTypes)), 3)
			s, gt := sizes[ds[0]], genTypes[ds[1]]
			ok := s.ok && (gt.sized || s.text == "")
			c := [][2]string{{"create table t (a ", ")"}, {"create table t (a ", " not null, b int)"},
				{"create table t (b bool, a ", " primary key)"}}[ds[2]]
			judge(w, "size", ok, c[0]+strings.ToLower(gt.name)+" "+s.text+c[1])
		})
		// A name which is not a type.
		r.Cases("types", int64(len(nameKeywords)*3), func(w *Worker, i int64) {
			s := nameKeywords[i/3]
			ok := false
			for _, gt := range genTypes {
				if strings.EqualFold(gt.name, s) {
					ok = true
				}
			}
			switch i % 3 {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s, ok = "\""+s+"\"", false
			}
			judge(w, "type", ok, "create table t (a "+s+")")
		})

		// The delimiter of COPY.
		delims := []struct {
			text string
			ok   bool
		}{{"", true}, {"delimiter ','", true}, {"delimiter ' '", true}, {"delimiter ''''", true}, {"delimiter e'\\t'", true},
			{"delimiter ''", false}, {"delimiter ',,'", false}, {"delimiter ''''''", false}, {"delimiter", false},
			{"delimiter ,", false}, {"delimiter 1", false}, {"delimiter b','", false}, {"delimiter \",\"", false},
			{"delimiter ',' delimiter ','", false}}
		r.Cases("delimiters", int64(len(delims)), func(w *Worker, i int64) {
			judge(w, "delimiter", delims[i].ok, "copy t (a) from stdin "+delims[i].text)
		})
	}
}
