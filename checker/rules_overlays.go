package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func nameIs(fn *ssa.Function, names ...string) bool {
	n := calleeName(fn)
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

const (
	fnFind    = "(*overlays.Queries).Find"
	fnPaths   = "(*overlays.Queries).Paths"
	fnCheckDQ = "(overlays.DocumentQueries).checkQueries"
)

// C06: evaluation of document queries.
func ruleDocumentQuery(c *Check) {
	c.rule("DocumentQueries.checkQueries returns true only when the list is empty or one document query had all its conditions hold, and false only after every document query was seen to fail; a condition holds when its query has results and its value is absent or equal (cmp.Equal, ignoring exactly comments, style and position) to the results, it fails when there are no results or an unequal one.")
	root := c.fn("overlays", "(DocumentQueries).checkQueries")
	if root == nil {
		return
	}
	dqs, node := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	cmps := map[string]bool{}
	opts := 0
	r := &Rule{Name: "dq", Stop: func(fn *ssa.Function) bool { return nameIs(fn, fnFind) }}
	condOf := func(res *Term) *Term { // condition whose query gave this result
		q := res.args[0]
		if q.op == OLD && q.args[0].op == OFA && q.args[0].s == "Query" {
			return q.args[0].args[0]
		}
		return nil
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch ev.name {
		case fnFind:
			q := e.Load(st, ev.args[0], nil)
			res := Call("Find", q, ev.args[1])
			ok := condOf(res) != nil && ev.args[1] == node
			c.must(e, st, ev.instr, ok, "find", "a condition is evaluated with %v on %v", q, ev.args[1])
			ev.handled = true
			ev.results = []*Term{res}
			st.Set("find:"+ref(res), "1")
		case "cmpopts.IgnoreFields":
			opts++
			l := e.list(st, ev.args[1])
			var names []string
			ok := l.op == OElems
			for _, x := range l.args {
				s, isS := x.isStr()
				ok = ok && isS
				names = append(names, s)
			}
			sort.Strings(names)
			c.must(e, st, ev.instr, ok && strings.Join(names, ",") == "Column,FootComment,HeadComment,Line,LineComment,Style", "ignored-fields",
				"the comparison of results with the condition's value ignores %v instead of comments, style and position", names)
		case "cmp.Equal":
			cmps[c.P.ipos(ev.instr)] = true
		}
	}
	// equality outcome known for element el of a result: Y, N or U
	equal := func(st *State, cond, addr *Term) tri {
		val := LD(FA(cond, "Value"), 0)
		for t, v := range st.facts.b {
			if t.op != OCall || t.s != "cmp.Equal" || len(t.args) != 3 {
				continue
			}
			a, b := stripDeref(t.args[0]), stripDeref(t.args[1])
			if t.args[2].op != OElems || len(t.args[2].args) != 1 || !strings.Contains(t.args[2].args[0].String(), "cmpopts.IgnoreFields") {
				continue
			}
			if (a == LD(addr, 0) && b == val) || (b == LD(addr, 0) && a == val) {
				return tb(v)
			}
		}
		return U
	}
	anyUnequal := func(st *State, cond, res *Term) bool {
		if st.Get("unequal:"+ref(res)) != "" {
			return true
		}
		for t, v := range st.facts.b {
			if v || t.op != OCall || t.s != "cmp.Equal" {
				continue
			}
			for i := 0; i < 2; i++ {
				a := stripDeref(t.args[i])
				if a.op == OLD && a.args[0].op == OLD && a.args[0].args[0].op == OEA && a.args[0].args[0].args[0] == res {
					if equal(st, cond, a.args[0]) == N {
						return true
					}
				}
			}
		}
		return false
	}
	isZero := func(st *State, cond *Term) tri {
		for t, v := range st.facts.b {
			if t.op == OCall && strings.HasSuffix(t.s, "yaml.Node).IsZero") {
				a := t.args[0]
				if a == FA(cond, "Value") || a == LD(FA(cond, "Value"), 0) {
					return tb(v)
				}
			}
		}
		return U
	}
	holds := func(st *State, cond *Term) bool {
		for _, res := range st.listed("find:") {
			if condOf(res) == cond && st.someList(res) {
				if isZero(st, cond) == Y || (isZero(st, cond) == N && st.all("eq", res) != "") {
					return true
				}
			}
		}
		return false
	}
	fails := func(st *State, cond *Term) bool {
		for _, res := range st.listed("find:") {
			if condOf(res) == cond && (st.emptyList(res) || (isZero(st, cond) == N && anyUnequal(st, cond, res))) {
				return true
			}
		}
		return false
	}
	condsOf := func(q *Term) *Term { return Fld(q, "Conditions") }
	queries := func(st *State) []*Term { // document queries touched on this path
		m := map[*Term]bool{}
		for t := range st.facts.b {
			collectDQ(t, dqs, m)
		}
		for t := range st.facts.ints {
			collectDQ(t, dqs, m)
		}
		for _, res := range st.listed("find:") {
			collectDQ(res, dqs, m)
		}
		var out []*Term
		for q := range m {
			out = append(out, q)
		}
		sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
		return out
	}
	qHolds := func(st *State, q *Term) bool {
		return st.emptyList(condsOf(q)) || st.all("cond", condsOf(q)) != ""
	}
	qFails := func(st *State, q *Term) bool {
		for _, res := range st.listed("find:") {
			cd := condOf(res)
			if cd != nil && cd.op == OLD && cd.args[0].op == OEA && cd.args[0].args[0] == condsOf(q) && fails(st, cd) {
				return true
			}
		}
		return false
	}
	r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
		// keep the witness of an unequal result
		if !val && atom.op == OCall && atom.s == "cmp.Equal" {
			for _, res := range st.listed("find:") {
				if cd := condOf(res); cd != nil && anyUnequal(st, cd, res) {
					st.Set("unequal:"+ref(res), "1")
				}
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		st.forAll(ev, "eq", st.listed("find:"), func(l, idx, el *Term) bool {
			cd := condOf(l)
			return cd != nil && equal(st, cd, el) == Y
		})
		var conds []*Term
		for _, q := range queries(st) {
			conds = append(conds, condsOf(q))
		}
		st.forAll(ev, "cond", conds, func(l, idx, el *Term) bool { return holds(st, el) })
		st.forAll(ev, "dq", []*Term{dqs}, func(l, idx, el *Term) bool { return qFails(st, el) })
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	trues, falses := 0, 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 {
			return
		}
		judge := func(s *State, v bool) {
			if v {
				trues++
				ok := s.emptyList(dqs)
				for _, q := range queries(s) {
					ok = ok || qHolds(s, q)
				}
				c.must(e, st, in, ok, "true", "the document is selected although no document query is known to have all its conditions hold")
				return
			}
			falses++
			c.must(e, st, in, s.all("dq", dqs) != "" && !s.emptyList(dqs), "false", "the document is not selected although not every document query is known to fail")
		}
		st.with(func(s *State) { judge(s, true) }, res[0])
		st.with(func(s *State) { judge(s, false) }, Not(res[0]))
	}
	c.explore(root, r, nil, nil)
	c.least("selecting paths of checkQueries", trues, 2)
	c.least("rejecting paths of checkQueries", falses, 1)
	c.least("value comparisons of document queries", len(cmps), 1)
	c.least("comparison options of document queries", opts, 1)
}

func stripDeref(t *Term) *Term {
	t = unwrap(t)
	return t
}

func collectDQ(t, dqs *Term, m map[*Term]bool) {
	t.any(func(x *Term) bool {
		if x.op == OLD && x.args[0].op == OEA && x.args[0].args[0] == dqs {
			m[x] = true
		}
		return false
	})
}
