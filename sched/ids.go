package main

import (
	"strconv"
	"strings"

	"github.com/leftmike/maho/types"
)

// Programs which create, look up, format, encode, and decode identifiers.

type idSeen struct {
	canon string // the name: identifiers are the same exactly if these are
	id    types.Identifier
	text  string // what it was formatted as, if it was
	fmted bool
}

type idEnv struct {
	a, b, long, pre string
	preId           types.Identifier
	seen            [][]idSeen
}

var (
	idExec   int
	idOps    = []func(e *idEnv, t int){}
	idOpName = []string{}
)

func idOp(name string, fn func(e *idEnv, t int)) {
	idOps = append(idOps, fn)
	idOpName = append(idOpName, name)
}

func (e *idEnv) saw(t int, s idSeen) { e.seen[t] = append(e.seen[t], s) }

func init() {
	idOp("ID(a)", func(e *idEnv, t int) { e.saw(t, idSeen{canon: e.a, id: types.ID(e.a, false)}) })
	idOp("ID(A)", func(e *idEnv, t int) {
		e.saw(t, idSeen{canon: e.a, id: types.ID(strings.ToUpper(e.a), false)})
	})
	idOp("ID('a')", func(e *idEnv, t int) { e.saw(t, idSeen{canon: e.a, id: types.ID(e.a, true)}) })
	idOp("ID(b)", func(e *idEnv, t int) { e.saw(t, idSeen{canon: e.b, id: types.ID(e.b, false)}) })
	idOp("ID('A')", func(e *idEnv, t int) {
		s := strings.ToUpper(e.a)
		e.saw(t, idSeen{canon: s, id: types.ID(s, true)})
	})
	idOp("ID(b).String()", func(e *idEnv, t int) {
		id := types.ID(e.b, false)
		e.saw(t, idSeen{canon: e.b, id: id, text: id.String(), fmted: true})
	})
	idOp("pre.String()", func(e *idEnv, t int) {
		e.saw(t, idSeen{canon: e.pre, id: e.preId, text: e.preId.String(), fmted: true})
	})
	idOp("ID(pre)", func(e *idEnv, t int) {
		e.saw(t, idSeen{canon: e.pre, id: types.ID(e.pre, false)})
	})
	idOp("decode a", func(e *idEnv, t int) {
		var id types.Identifier
		if err := id.GobDecode(append([]byte{0}, e.a...)); err == nil {
			e.saw(t, idSeen{canon: e.a, id: id})
		}
	})
	idOp("encode pre, decode", func(e *idEnv, t int) {
		buf, err := e.preId.GobEncode()
		if err != nil {
			return
		}
		var id types.Identifier
		if err := id.GobDecode(buf); err == nil {
			e.saw(t, idSeen{canon: e.pre, id: id, text: id.String(), fmted: true})
		}
	})
	idOp("ID(long)", func(e *idEnv, t int) {
		e.saw(t, idSeen{canon: e.long[:types.MaxIdentifier], id: types.ID(e.long, true)})
	})
	idOp("SELECT.String()", func(e *idEnv, t int) {
		id := types.ID("select", false)
		e.saw(t, idSeen{canon: "SELECT\000", id: id, text: id.String() + "\000", fmted: true})
	})
	idOp("TableName{pre, pre, a}.String()", func(e *idEnv, t int) {
		id := types.ID(e.a, false)
		tn := types.TableName{Database: e.preId, Schema: e.preId, Table: id}
		s := strings.TrimPrefix(tn.String(), e.pre+"."+e.pre+".")
		e.saw(t, idSeen{canon: e.a, id: id, text: s, fmted: true})
	})
}

func idScenario(progs ...[]int) *scenario {
	var names []string
	for _, p := range progs {
		var ops []string
		for _, o := range p {
			ops = append(ops, idOpName[o])
		}
		names = append(names, strings.Join(ops, "; "))
	}
	return &scenario{
		name: strings.Join(names, "  ||  "),
		fresh: func() *instance {
			idExec++
			k := strconv.Itoa(1000000 + idExec)
			e := &idEnv{a: "a" + k, b: "b" + k, pre: "p" + k,
				long: "L" + k + strings.Repeat("x", types.MaxIdentifier),
				seen: make([][]idSeen, len(progs))}
			e.preId = types.ID(e.pre, false)
			ins := &instance{}
			for t, p := range progs {
				t, p := t, p
				ins.threads = append(ins.threads, []unit{func(rec *recorder) {
					for _, o := range p {
						idOps[o](e, t)
					}
				}})
			}
			ins.judge = e.judge
			return ins
		},
	}
}

func (e *idEnv) judge(recs []*recorder) string {
	byName := map[string]types.Identifier{e.pre: e.preId}
	byId := map[types.Identifier]string{e.preId: e.pre}
	check := func(s idSeen, who string) string {
		if id, ok := byName[s.canon]; ok && id != s.id {
			return who + ": two identifiers for the name " + s.canon
		}
		if c, ok := byId[s.id]; ok && c != s.canon {
			return who + ": the same identifier for the names " + s.canon + " and " + c
		}
		byName[s.canon] = s.id
		byId[s.id] = s.canon
		if s.fmted && s.text != s.canon {
			return who + ": the identifier for " + s.canon + " was formatted as " + s.text
		}
		return ""
	}
	for t, seen := range e.seen {
		for i, s := range seen {
			if wrong := check(s, "thread "+strconv.Itoa(t)); wrong != "" {
				return wrong
			}
			_ = i
		}
	}
	// And afterwards.
	for _, c := range []string{e.a, e.b, e.pre, strings.ToUpper(e.a),
		e.long[:types.MaxIdentifier], "new" + e.a} {

		id := types.ID(c, true)
		if wrong := check(idSeen{canon: c, id: id, text: id.String(), fmted: true},
			"afterwards"); wrong != "" {

			return wrong
		}
	}
	// How the names were divided is the outcome.
	for t, seen := range e.seen {
		for _, s := range seen {
			recs[t].add(strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return -1
				}
				return r
			}, s.canon))
		}
	}
	return ""
}

func idGroups(thorough bool) []group {
	n := len(idOps)
	var one, two [][]int
	for i := 0; i < n; i++ {
		one = append(one, []int{i})
		for j := 0; j < n; j++ {
			two = append(two, []int{i, j})
		}
	}
	pairs := func(ps, qs [][]int) func(i int) []*scenario {
		return func(i int) []*scenario {
			var scs []*scenario
			for _, q := range qs {
				scs = append(scs, idScenario(ps[i], q))
			}
			return scs
		}
	}
	var prs [][2]int
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			prs = append(prs, [2]int{i, j})
		}
	}
	triples := func(i int) []*scenario {
		var scs []*scenario
		for k := prs[i][1]; k < n; k++ {
			scs = append(scs, idScenario([]int{prs[i][0]}, []int{prs[i][1]}, []int{k}))
		}
		return scs
	}
	gs := []group{
		{"1+1 operations", 2, true, true, n, pairs(one, one)},
		{"2+1 operations", 1, false, true, len(two), pairs(two, one)},
		{"1+1+1 operations", 2, false, false, len(prs), triples},
		{"1+1+1 operations", 1, false, true, len(prs), triples},
	}
	if thorough {
		gs = []group{
			{"1+1 operations", 3, true, true, n, pairs(one, one)},
			{"2+1 operations", 3, false, false, len(two), pairs(two, one)},
			{"2+1 operations", 2, false, true, len(two), pairs(two, one)},
			{"2+2 operations", 2, false, false, len(two), pairs(two, two)},
			{"2+1 operations", 2, true, false, len(two), pairs(two, one)},
			{"1+1+1 operations", 3, false, true, len(prs), triples},
			{"1+1+1 operations", 2, true, false, len(prs), triples},
		}
	}
	for gdx := range gs {
		gs[gdx].Scope += gs[gdx].how()
	}
	return gs
}
