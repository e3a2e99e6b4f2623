package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnMerge   = "actions.MergeNode"
	fnCombine = "actions.CombineNode"
	fnDelete  = "actions.DeleteNode"
	fnReplace = "actions.ReplaceNode"
	fnNewP    = "builder.NewPaths"
)

const (
	aMerge   = 1
	aReplace = 2
	aDelete  = 3
	aCombine = 4
)

func isAction(n string) bool {
	return n == fnMerge || n == fnCombine || n == fnDelete || n == fnReplace
}

// ruleApply covers what applying one overlay to one document does (C06, C07, C08).
func ruleApply(c *Check) {
	root := c.fn("overlays", "(*Overlay).Apply")
	if root == nil {
		return
	}
	if c.for_("C06") {
		c.rule("On every path of Overlay.Apply the document is only changed (merged, combined, deleted from, replaced in) after the overlay's DocumentQuery was evaluated on that document and selected it; a path on which it did not select the document changes nothing and reports no error.")
	}
	if c.for_("C07") {
		c.rule("On every path of Overlay.Apply on which the overlay's query has results, one loop visits all results in order and calls exactly one action function per result: the one of the overlay's Action (merge when it is none of delete, replace, combine), with that result, the overlay's own Value, and (for delete) the document; an error of an action ends the loop and is returned; success is only returned after the last result.")
	}
	if c.for_("C08") {
		c.rule("On every path of Overlay.Apply on which the query has no results, for every combination of action, onMissing action, configured default, form of the query and of the inject path: either nothing is called and success is returned, or (merge or replace, effective action inject, usable path) the path scaffolding built from exactly that query is merged into the document and the overlay's value put at every result of that query in it, or an error is returned.")
	}
	o, n := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	dq := LD(FA(o, "DocumentQuery"), 0)
	query := LD(FA(o, "Query"), 0)
	ipath := LD(FA(FA(o, "OnMissing"), "InjectPath"), 0)
	act := Fld(o, "Action")
	om := LD(FA(FA(o, "OnMissing"), "Action"), 0)
	sel := Call("checkQueries", dq, n)
	R := Call("Find", query, n, Int(0))
	R1 := func(q *Term) *Term { return Call("Find", q, n, Int(1)) }
	np := func(q *Term) *Term { return Call("NewPaths", Call("Paths", q)) }
	bp := func(q *Term) *Term { return Call("BuildPaths", Ext(np(q), 0)) }
	viperDef := Eq(Call("strings.ToLower", Call("viper.GetString", Str("defaultonmissingaction"))), Str("inject"))
	// how an empty result looks like
	zero, some := emptyResult(c, R)

	r := &Rule{Name: "apply", Stop: func(fn *ssa.Function) bool {
		nm := calleeName(fn)
		return isAction(nm) || nm == fnFind || nm == fnPaths || nm == fnCheckDQ || nm == fnNewP || isBuildPaths(nm)
	}}
	calls := map[string]map[string]bool{"action": {}, "inject": {}, "find": {}}
	note := func(k string, in ssa.Instruction) {
		if strings.HasPrefix(k, "action") {
			calls["action"][k] = true
			return
		}
		calls[k][c.P.ipos(in)] = true
	}
	isValue := func(e *Engine, st *State, a *Term) bool {
		v := FA(o, "Value")
		if a == v {
			return true
		}
		return st.rootFresh(a) != nil && e.Load(st, a, nil) == LD(v, 0)
	}
	// index of element of list l, if a is one
	idxOf := func(a, l *Term) *Term {
		if a.op == OLD && a.args[0].op == OEA && a.args[0].args[0] == l {
			return a.args[0].args[1]
		}
		return nil
	}
	pendingErrs := func(st *State) []*Term { return st.listed("err:") }
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		switch {
		case strings.HasPrefix(ev.name, "viper.Get") || ev.name == "viper.IsSet":
			if s, ok := ev.args[0].isStr(); ok {
				ev.handled = true
				ev.results = []*Term{Call(ev.name, Str(strings.ToLower(s)))}
			}
		case ev.name == fnCheckDQ:
			c.must(e, st, in, ev.args[0] == dq && ev.args[1] == n, "dq-args", "document queries %v are evaluated on %v", ev.args[0], ev.args[1])
			ev.handled = true
			ev.results = []*Term{Call("checkQueries", ev.args...)}
		case ev.name == fnFind:
			q := e.Load(st, ev.args[0], nil)
			gen := int64(0)
			if st.Get("gen") != "" {
				gen = 1
			}
			c.must(e, st, in, ev.args[1] == n, "find-root", "the query is evaluated on %v instead of the document", ev.args[1])
			ev.handled = true
			ev.results = []*Term{Call("Find", q, ev.args[1], Int(gen))}
			if q == query && gen == 0 {
				st.Set("searched", "1")
			}
			note("find", in)
		case ev.name == fnPaths:
			ev.handled = true
			ev.results = []*Term{Call("Paths", e.Load(st, ev.args[0], nil))}
		case ev.name == fnNewP:
			ev.handled = true
			t := Call("NewPaths", ev.args...)
			ev.results = []*Term{Ext(t, 0), Ext(t, 1)}
			st.Set("err:"+ref(Ext(t, 1)), "np "+ref(Ext(t, 1)))
		case isBuildPaths(ev.name):
			ev.handled = true
			a := ev.args[0]
			if a.op == OLD {
				a = a.args[0]
			}
			t := Call("BuildPaths", a)
			ev.results = []*Term{Ext(t, 0), Ext(t, 1)}
			st.Set("err:"+ref(Ext(t, 1)), "bp "+ref(Ext(t, 1)))
		case isAction(ev.name):
			ev.handled = true
			if ev.name != fnDelete {
				t := e.freshResults(st, in, ev.name, 1)[0]
				ev.results = []*Term{t}
				st.Set("err:"+ref(t), "act "+ref(t))
			}
			if c.for_("C06") {
				c.must(e, st, in, st.Is(sel), "unselected", "%s is called although the document queries are not known to select the document", ev.name)
			}
			st.Set("effect", "1")
			defer st.Set("gen", "1")
			target, value := ev.args[0], ev.args[0]
			switch {
			case ev.name == fnDelete:
				target = ev.args[1]
			case len(ev.args) == 2:
				value = ev.args[1]
			default:
				l := e.list(st, ev.args[0])
				if !c.must(e, st, in, l.op == OElems && len(l.args) == 2, "operands|"+ev.name, "%s is called with %v", ev.name, l) {
					return
				}
				target, value = l.args[0], l.args[1]
			}
			if i := idxOf(target, R); i != nil {
				note("action "+ev.name, in)
				if !c.for_("C07") {
					return
				}
				is := func(k int64) tri { return st.Truth(EqInt(act, Int(k))) }
				ok := false
				switch ev.name {
				case fnDelete:
					ok = is(aDelete) == Y
					c.must(e, st, in, ev.args[0] == n, "delete-root", "the match is deleted from %v instead of the document", ev.args[0])
				case fnReplace:
					ok = is(aReplace) == Y
				case fnCombine:
					ok = is(aCombine) == Y
				case fnMerge:
					ok = is(aMerge) == Y || (is(aDelete) == N && is(aReplace) == N && is(aCombine) == N)
				}
				c.must(e, st, in, ok, "selected|"+ev.name, "%s is called for a match although the overlay's action is not known to select it", ev.name)
				if ev.name != fnDelete {
					c.must(e, st, in, isValue(e, st, value), "value|"+ev.name, "%s is called with %v instead of the overlay's value", ev.name, value)
				}
				c.must(e, st, in, st.Get("act:"+ref(i)) == "", "twice|"+ev.name, "a match receives a second action")
				st.Set("act:"+ref(i), "1")
				return
			}
			// injection
			note("inject", in)
			if !c.for_("C08") {
				return
			}
			var q *Term
			for _, x := range []*Term{query, ipath} {
				if ev.name == fnMerge && target == n && value == Ext(bp(x), 0) {
					q = x
					c.must(e, st, in, st.Is(Eq(Ext(np(x), 1), Nil())) && st.Is(Eq(Ext(bp(x), 1), Nil())), "unusable", "path scaffolding is merged although building it is not known to have succeeded")
					c.must(e, st, in, st.Get("scaffold") == "", "twice-injected", "path scaffolding is merged twice")
					st.Set("scaffold", ref(x))
				}
				if i := idxOf(target, R1(x)); i != nil && (ev.name == fnReplace || ev.name == fnMerge) {
					q = x
					c.must(e, st, in, ev.name == fnReplace, "inject-action", "injection uses %s to put the value in place", ev.name)
					c.must(e, st, in, st.Get("scaffold") == ref(x), "inject-order", "the value is put in place before the path scaffolding of that path was merged")
					c.must(e, st, in, isValue(e, st, value), "inject-value", "injection puts %v in place instead of the overlay's value", value)
					c.must(e, st, in, st.Get("inj:"+ref(i)) == "", "inject-twice", "an injected node gets the value twice")
					st.Set("inj:"+ref(i), "1")
				}
			}
			c.must(e, st, in, q != nil, "other-target|"+ev.name, "%s is called on %v, which is neither a match nor an injection", ev.name, target)
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil || (addr.op == OGlobal) {
			return
		}
		c.must(e, st, in, false, "write", "%v is written", addr)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind == "back" && !c.for_("C06") {
			for _, t := range pendingErrs(st) {
				if strings.HasPrefix(st.Get("err:"+ref(t)), "act") {
					c.must(e, st, ev.l.header.Instrs[0], st.Is(Eq(t, Nil())), "ignored-error", "the next result is handled although the error of an action is not known to be nil")
					st.Set("err:"+ref(t), "")
				}
			}
		}
		st.forAll(ev, "act", []*Term{R}, func(l, idx, el *Term) bool { return st.Get("act:"+ref(idx)) != "" })
		st.forAll(ev, "inj", []*Term{R1(query), R1(ipath)}, func(l, idx, el *Term) bool { return st.Get("inj:"+ref(idx)) != "" })
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	succ, fail, none, injected := 0, 0, 0, 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 {
			return
		}
		effect := st.Get("effect") != ""
		failed := func(s *State) bool {
			for _, t := range s.listed("err:") {
				if s.IsNot(Eq(t, Nil())) {
					return true
				}
			}
			return false
		}
		judge := func(s *State, isErr bool) {
			s.with(func(s *State) { // not selected
				if c.for_("C06") {
					c.must(e, st, in, !effect, "effect-unselected", "a document that is not selected is changed")
					c.must(e, st, in, !isErr, "error-unselected", "an error is returned for a document that is not selected")
				}
			}, Not(sel))
			s.with(func(s *State) { // selected, results
				if isErr {
					fail++
					if c.for_("C07") {
						c.must(e, st, in, failed(s), "error-without-cause", "an error is returned although no action is known to have failed")
					}
					return
				}
				succ++
				if c.for_("C07") {
					c.must(e, st, in, s.all("act", R) == "fwd", "not-all", "success is returned although not every result is known to have received the action in order")
				}
				for _, t := range s.listed("err:") {
					if c.for_("C07") && strings.HasPrefix(s.Get("err:"+ref(t)), "act") {
						c.must(e, st, in, s.Is(Eq(t, Nil())), "dropped-error", "success is returned although the error of an action is not known to be nil")
					}
				}
			}, append([]*Term{sel}, some...)...)
			if !c.for_("C08") {
				return
			}
			s.with(func(s *State) { // selected, nothing found
				// every combination of settings
				for a := int64(0); a <= 4; a++ {
					for m := int64(0); m <= 2; m++ {
						for d := 0; d < 2; d++ {
							dt := viperDef
							if d == 0 {
								dt = Not(viperDef)
							}
							s.with(func(s *State) {
								adds := a != aDelete && a != aCombine
								inject := adds && (m == 2 || (m == 0 && d == 1))
								if !inject {
									none++
									c.must(e, st, in, s.Get("effect") == "", "no-inject", "the document is changed although action %d, onMissing %d and default inject=%d ask for no injection", a, m, d)
									c.must(e, st, in, !isErr, "no-inject-error", "an error is returned although action %d, onMissing %d and default inject=%d ask for no injection", a, m, d)
									return
								}
								checkInject := func(s *State, q *Term, what string) {
									if isErr {
										c.must(e, st, in, failed(s), "inject-error|"+what, "an error is returned although no step of the injection at the %s is known to have failed", what)
										return
									}
									injected++
									c.must(e, st, in, s.Get("scaffold") == ref(q) && s.all("inj", R1(q)) != "", "no-injection|"+what, "success is returned although the value is not known to be injected at the %s (action %d, onMissing %d, default inject=%d)", what, a, m, d)
									for _, t := range s.listed("err:") {
										k := s.Get("err:" + ref(t))
										if !strings.HasPrefix(k, "np") {
											c.must(e, st, in, s.Is(Eq(t, Nil())), "dropped-error|"+what, "success is returned although an error of the injection is not known to be nil")
										}
									}
								}
								perr := Ext(np(query), 1)
								s.with(func(s *State) { checkInject(s, query, "query") }, Eq(perr, Nil()))
								s.with(func(s *State) {
									inv := U
									for t, v := range s.facts.b {
										if t.op == OCall && t.s == "errors.Is" && unwrap(t.args[0]) == perr && strings.Contains(t.args[1].String(), "ErrInvalidPathSyntax") {
											inv = tb(v)
										}
									}
									switch inv {
									case N:
										c.must(e, st, in, isErr && s.Get("effect") == "", "path-error", "a query that cannot be parsed for injection is not reported")
									case Y:
										s.with(func(s *State) {
											c.must(e, st, in, s.Get("effect") == "" && !isErr, "no-path", "without a usable path the document is changed or an error is returned")
										}, EqInt(LenOf(ipath), Int(0)))
										s.with(func(s *State) { checkInject(s, ipath, "inject path") }, Not(EqInt(LenOf(ipath), Int(0))), Not(Eq(ipath, Nil())))
									default:
										c.must(e, st, in, false, "form", "the form of the query is not examined before deciding about the injection")
									}
								}, Not(Eq(perr, Nil())))
							}, EqInt(act, Int(a)), EqInt(om, Int(m)), dt)
						}
					}
				}
			}, append([]*Term{sel}, zero...)...)
		}
		st.with(func(s *State) { judge(s, false) }, Eq(res[0], Nil()))
		st.with(func(s *State) { judge(s, true) }, Not(Eq(res[0], Nil())))
	}
	c.explore(root, r, nil, nil)
	c.least("action functions called by Apply", len(calls["action"]), 4)
	c.least("queries evaluated by Apply", len(calls["find"]), 1)
	if c.for_("C07") {
		c.least("successful paths with results", succ, 1)
		c.least("failing paths with results", fail, 1)
	}
	if c.for_("C08") {
		c.least("calls injecting content", len(calls["inject"]), 1)
		c.least("paths without injection", none, 4)
		c.least("paths with injection", injected, 2)
	}
}

func isBuildPaths(n string) bool {
	return strings.HasPrefix(n, "(") && strings.Contains(n, "builder.") && strings.HasSuffix(n, ").BuildPaths")
}

// emptyResult gives what is known about R, the result of a search, when it has no elements and when it has some.
func emptyResult(c *Check, R *Term) (zero, some []*Term) {
	zero, some = []*Term{EqInt(LenOf(R), Int(0))}, []*Term{Not(EqInt(LenOf(R), Int(0))), Not(Eq(R, Nil()))}
	switch c.emptyFind() {
	case "nil":
		zero = append(zero, Eq(R, Nil()))
	case "nonnil":
		zero = append(zero, Not(Eq(R, Nil())))
	}
	return zero, some
}

// emptyFind tells whether Queries.Find without results returns nil ("nil"), a list without elements ("nonnil") or either.
func (c *Check) emptyFind() string {
	if c.P.emptyFind != "" {
		return c.P.emptyFind
	}
	c2 := newCheck(c.P, c.id)
	ruleQueries(c2)
	return c.P.emptyFind
}

// ruleQueries: a list of queries stands for all of them in order.
func ruleQueries(c *Check) {
	c.rule("Queries.Find returns the results of yamlpath Find of every query of the list, evaluated on the given node, one after another in list order (documents without content have no results); Queries.Paths returns the text of every query in list order.")
	if root := c.fn("overlays", "(*Queries).Find"); root != nil {
		mq, node := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
		list := LD(mq, 0)
		resOf := func(q *Term) *Term { return Ext(Call("pathFind", LD(FA(q, "yamlPath"), 0), node), 0) }
		empty := func(st *State) bool {
			return st.Is(kindIs(node, kDoc)) && (st.Is(EqInt(LenOf(Fld(node, "Content")), Int(0))) || st.Is(Eq(Fld(node, "Content"), Nil())))
		}
		r := &Rule{Name: "queries"}
		finds := 0
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			if ev.name == "(*yamlpath.Path).Find" {
				finds++
				t := Call("pathFind", ev.args...)
				ev.handled = true
				ev.results = []*Term{Ext(t, 0), Ext(t, 1)}
			}
		}
		acc := &Acc{key: "find", lists: func(*State) []*Term { return []*Term{list} }, match: func(st *State, l, idx, el, sfx *Term) bool {
			if x := resOf(EA(l, idx)); sfx == x {
				return true
			}
			if n, ok := LenOf(sfx).isInt(); ok && n == 0 {
				return empty(st) || st.emptyList(resOf(EA(l, idx)))
			}
			return false
		}}
		nils, nonnils := false, false
		r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
			if isSliceType(ph.Type()) && old != nil && old.op != OPhi {
				nils = nils || old.isNil()
				nonnils = nonnils || !old.isNil()
			}
			acc.onPhi(e, st, ph, l, old, nw)
		}
		r.OnLoop = func(e *Engine, st *State, ev LoopEv) { acc.onLoop(e, st, ev) }
		rets := 0
		defer func() {
			c.P.emptyFind = "either"
			if nils != nonnils {
				c.P.emptyFind = map[bool]string{true: "nil", false: "nonnil"}[nils]
			}
		}()
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			rets++
			n, isN := LenOf(e.list(st, res[0])).isInt()
			if isN && n == 0 {
				nils = nils || res[0].isNil()
				nonnils = nonnils || !res[0].isNil()
			}
			c.must(e, st, in, acc.built(e, st, res[0], list) || (empty(st) && isN && n == 0), "results", "the result %v is not the concatenation of the results of all queries in order", res[0])
		}
		c.explore(root, r, nil, nil)
		c.least("query evaluations", finds, 1)
		c.least("returns of Queries.Find", rets, 1)
	}
	if root := c.fn("overlays", "(*Queries).Paths"); root != nil {
		mq := Param(root.Params[0].Name(), root.Params[0].Type())
		list := LD(mq, 0)
		text := func(a *Term) *Term { return LD(FA(a, "queryString"), 0) }
		r := &Rule{Name: "paths"}
		acc := &Acc{key: "paths", lists: func(*State) []*Term { return []*Term{list} }, match: func(st *State, l, idx, el, sfx *Term) bool {
			return sfx.op == OElems && len(sfx.args) == 1 && sfx.args[0] == text(EA(l, idx))
		}}
		r.OnPhi = acc.onPhi
		r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
			acc.onLoop(e, st, ev)
			// s[i] = text of element i
			st.forAll(ev, "set", []*Term{list}, func(l, idx, el *Term) bool { return st.Get("set:"+ref(idx)) != "" })
			if ev.kind != "exit" {
				st.clearIter(ev.iter)
			}
		}
		r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == OEA && addr.args[0].op == OAlloc && strings.HasPrefix(addr.args[0].s, "slice") {
				i := addr.args[1]
				tgt := ref(addr.args[0])
				if val == text(EA(list, i)) && (st.Get("into") == "" || st.Get("into") == tgt) {
					st.Set("set:"+ref(i), "1")
					st.Set("into", tgt)
				} else {
					st.Set("wrong", "1")
				}
			}
		}
		rets := 0
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			rets++
			t := res[0]
			ok := acc.built(e, st, t, list)
			if t.op == OAlloc && st.Get("wrong") == "" && st.Is(EqInt(Add(LenOf(t), LenOf(list), -1), Int(0))) {
				ok = ok || (st.all("set", list) != "" && (st.Get("into") == "" || st.Get("into") == ref(t))) || st.Is(EqInt(LenOf(list), Int(0))) || st.Truth(Lt(Int(0), LenOf(list))) == N
			}
			c.must(e, st, in, ok, "paths", "the result %v is not the list of the texts of all queries in order", t)
		}
		c.explore(root, r, nil, nil)
		c.least("returns of Queries.Paths", rets, 1)
	}
}
