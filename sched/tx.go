package main

import "strings"

type kind struct {
	name string
	once bool // at most once in a program
	fn   func(env any) unit
}

func kindScenario(kinds []kind, mkenv func() (any, func() string), progs ...[]int) *scenario {
	var names []string
	used := map[int]int{}
	for _, p := range progs {
		var us []string
		for _, k := range p {
			us = append(us, kinds[k].name)
			used[k]++
		}
		names = append(names, strings.Join(us, "; "))
	}
	for k, c := range used {
		if kinds[k].once && c > 1 {
			return nil
		}
	}
	return &scenario{
		name: strings.Join(names, "  ||  "),
		fresh: func() *instance {
			env, final := mkenv()
			ins := &instance{final: final}
			for _, p := range progs {
				var us []unit
				for _, k := range p {
					us = append(us, kinds[k].fn(env))
				}
				ins.threads = append(ins.threads, us)
			}
			return ins
		},
	}
}

func txGroups(thorough bool) []group {
	var gs []group
	for _, lv := range levels {
		lv := lv
		n := len(lv.kinds)
		mk := func(scs []*scenario, progs ...[]int) []*scenario {
			if sc := kindScenario(lv.kinds, lv.mkenv, progs...); sc != nil {
				scs = append(scs, sc)
			}
			return scs
		}
		var prs [][2]int
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				prs = append(prs, [2]int{i, j})
			}
		}
		ones := func(i int) []*scenario {
			return mk(nil, []int{prs[i][0]}, []int{prs[i][1]})
		}
		twoOne := func(i int) (scs []*scenario) {
			for j := 0; j < n; j++ {
				scs = mk(scs, []int{i / n, i % n}, []int{j})
			}
			return
		}
		twoTwo := func(i int) (scs []*scenario) {
			for j := i; j < n*n; j++ {
				scs = mk(scs, []int{i / n, i % n}, []int{j / n, j % n})
			}
			return
		}
		triples := func(i int) (scs []*scenario) {
			for k := prs[i][1]; k < n; k++ {
				scs = mk(scs, []int{prs[i][0]}, []int{prs[i][1]}, []int{k})
			}
			return
		}
		for _, c := range lv.groups {
			if c.thorough && !thorough {
				continue
			}
			g := group{Bound: c.bound, Stmts: c.stmts, Race: c.race}
			if thorough && c.deeper > 0 {
				g.Bound = c.deeper
			}
			switch c.shape {
			case "1+1":
				g.N, g.at = len(prs), ones
			case "2+1":
				g.N, g.at = n*n, twoOne
			case "2+2":
				g.N, g.at = n*n, twoTwo
			case "1+1+1":
				g.N, g.at = len(prs), triples
			}
			g.Scope = lv.name + ": " + c.shape + " transactions" + g.how()
			gs = append(gs, g)
		}
	}
	return gs
}

func groups(prop string, thorough bool) []group {
	if prop == "C14" {
		return idGroups(thorough)
	} else if prop == "C36" {
		return pureGroups(thorough)
	}
	return txGroups(thorough)
}
