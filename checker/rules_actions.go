package main

import (
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: deletion of the matched node.
func ruleDelete(c *Check) {
	c.rule("On every path of actions.DeleteNode(parent, child): parent.Content is changed only by removing, at the index k where Content[k] is child, exactly [k,k+1) for documents and sequences and the key/value pair around k for maps; nothing else is written; a path that removes nothing has compared every element with child and descended into every element.")
	root := c.fn("actions", "DeleteNode")
	if root == nil {
		return
	}
	pn, ch := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	content := Fld(pn, "Content")
	removals := 0
	r := &Rule{Name: "delete"}
	matchIdx := func(st *State) []*Term {
		var ks []*Term
		for t, v := range st.facts.b {
			if !v || t.op != OEq {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := t.args[i], t.args[1-i]
				if x == ch && y.op == OLD && y.args[0].op == OEA && y.args[0].args[0] == content {
					ks = append(ks, y.args[0].args[1])
				}
			}
		}
		return ks
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == root && ev.recur {
			ok := len(ev.args) == 2 && ev.args[1] == ch && ev.args[0].op == OLD && ev.args[0].args[0].op == OEA && ev.args[0].args[0].args[0] == content
			c.must(e, st, ev.instr, ok, "descend", "the descent does not go from the parent's content to the same child: DeleteNode(%v)", ev.args)
			if ok {
				st.Set("rec", ref(ev.args[0].args[0].args[1]))
			}
			ev.handled = true
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil {
			return
		}
		if addr == FA(pn, "Content") {
			return
		}
		if addr.op == OEA && addr.args[0] == content {
			// cleared tail elements are judged at the return
			if val.isNil() {
				st.Set("cleared"+ref(addr.args[1]), "1")
				return
			}
		}
		c.must(e, st, in, false, "write", "deleting writes %v", addr)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		k := "x"
		key := k + ref(ev.iter)
		switch ev.kind {
		case "enter":
			st.Set("nm"+key, "")
			st.Set("rc"+key, "")
			st.Set("rec", "")
		case "back":
			nm, rc := false, false
			for _, idx := range []*Term{ev.iter, AddN(Add(LenOf(content), ev.iter, -1), -1)} {
				el := El(content, idx)
				if st.IsNot(Eq(ch, el)) {
					nm = true
				}
				if st.Get("rec") == ref(idx) || st.Is(Eq(Fld(el, "Content"), Nil())) || st.Is(EqInt(LenOf(Fld(el, "Content")), Int(0))) {
					rc = true
				}
			}
			if !nm {
				st.Set("nm"+key, "bad")
			}
			if !rc {
				st.Set("rc"+key, "bad")
			}
			st.Set("rec", "")
		case "exit":
			if fullScan(st, ev.iter, content) != "" {
				if st.Get("nm"+key) == "" {
					st.Set("allcompared", "1")
				}
				if st.Get("rc"+key) == "" {
					st.Set("alldescended", "1")
				}
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		v, changed := st.mem[FA(pn, "Content")]
		if changed && v == content {
			changed = false
		}
		if !changed {
			for k := range st.kv {
				if strings.HasPrefix(k, "cleared") {
					c.must(e, st, in, false, "lost", "an element is cleared although nothing is removed")
				}
			}
			// an empty list needs no scan
			empty := st.Is(EqInt(LenOf(content), Int(0))) || st.Is(Eq(content, Nil()))
			c.must(e, st, in, empty || st.Get("allcompared") != "", "notfound", "a path returns without removing anything although not every element of the content was compared with the child")
			c.must(e, st, in, empty || st.Get("alldescended") != "", "nodescent", "a path returns without removing anything although not every element of the content was searched")
			return
		}
		removals++
		ks := matchIdx(st)
		if !c.must(e, st, in, len(ks) > 0 && v.op == ORemove && v.args[0] == content, "removal", "the content becomes %v, which is not the removal of the element equal to the child", v) {
			return
		}
		k := ks[0]
		// elements set to nil must lie behind the remaining ones
		for kv := range st.kv {
			if strings.HasPrefix(kv, "cleared") {
				idx := unref(kv[len("cleared"):])
				c.must(e, st, in, idx != nil && st.Truth(Lt(idx, LenOf(v))) == N, "lost", "a remaining element is cleared")
			}
		}
		check := func(kind int64, parity int64, lo, hi *Term) {
			as := []*Term{kindIs(pn, kind)}
			if parity >= 0 {
				as = append(as, EqInt(Bin("%", k, Int(2)), Int(parity)))
			}
			st.with(func(s *State) {
				eq := func(a, b *Term) bool { return a == b || s.Is(EqInt(Add(a, b, -1), Int(0))) }
				what := map[int64]string{kDoc: "document", kSeq: "sequence", kMap: "map"}[kind]
				c.must(e, st, in, eq(v.args[1], lo) && eq(v.args[2], hi), "range-"+what, "deleting element %v of a %s removes [%v,%v) instead of [%v,%v)", k, what, v.args[1], v.args[2], lo, hi)
			}, as...)
		}
		check(kDoc, -1, k, AddN(k, 1))
		check(kSeq, -1, k, AddN(k, 1))
		check(kMap, 0, k, AddN(k, 2))
		check(kMap, 1, AddN(k, -1), AddN(k, 1))
	}
	c.explore(root, r, nil, nil)
	c.least("removals in DeleteNode", removals, 2)
}

// C20: typed combination.
func ruleCombine(c *Check) {
	c.rule("On every path of actions.CombineNode(o, n): success requires both to be scalars and leaves o.Value = decimal sum (tag !!int, both parsed, overflow excluded by the path), logical AND (tag !!bool, both parsed) or text concatenation (any other tag); an error leaves o.Value unchanged and occurs only for non scalars, parse failures and overflow; no other field of either node is written.")
	root := c.fn("actions", "CombineNode")
	if root == nil {
		return
	}
	o, n := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	r := &Rule{Name: "combine", WrapAdd: true}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil || addr == FA(o, "Value") {
			return
		}
		if addr.op == OFA && addr.args[0] == o && commentField(addr.s) {
			return
		}
		c.must(e, st, in, false, "write", "combining writes %v", addr)
	}
	ov, nv := Fld(o, "Value"), Fld(n, "Value")
	oi, ni := Call("strconv.Atoi", ov), Call("strconv.Atoi", nv)
	ob, nb := Call("strconv.ParseBool", ov), Call("strconv.ParseBool", nv)
	succ := map[string]int{}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 {
			return
		}
		final := ov
		if v, ok := st.mem[FA(o, "Value")]; ok {
			final = v
		}
		bothScalar := st.Is(kindIs(o, kScal)) && st.Is(kindIs(n, kScal))
		isErr := st.Is(Not(Eq(res[0], Nil())))
		isOK := st.Is(Eq(res[0], Nil()))
		if !c.must(e, st, in, isErr || isOK, "result", "the result %v is neither clearly an error nor clearly success", res[0]) {
			return
		}
		if isErr {
			c.must(e, st, in, final == ov, "error-changes", "an error is returned but the value was changed to %v", final)
		} else {
			if !c.must(e, st, in, bothScalar, "scalar-only", "success without both nodes known to be scalars") {
				return
			}
		}
		if !bothScalar {
			return // error path
		}
		tag := Fld(o, "Tag")
		// integers
		st.with(func(s *State) {
			succ["int"]++
			parsed := s.Is(Eq(Ext(oi, 1), Nil())) && s.Is(Eq(Ext(ni, 1), Nil()))
			a, b := Ext(oi, 0), Ext(ni, 0)
			if isOK {
				sum := WAdd(a, b)
				c.must(e, st, in, parsed, "int-parse", "integers are combined although they could not be read")
				c.must(e, st, in, final == Call("strconv.Itoa", sum) || final == Call("strconv.Itoa", Add(a, b, 1)), "int-sum", "combining integers gives %v", final)
				c.must(e, st, in, noOverflow(s, a, b, sum), "int-overflow", "the sum of the integers may be out of range")
			} else if parsed {
				c.must(e, st, in, overflowed(s, a, b, WAdd(a, b)), "int-spurious", "an error is reported for integers that can be combined")
			} else {
				c.must(e, st, in, s.IsNot(Eq(Ext(oi, 1), Nil())) || s.IsNot(Eq(Ext(ni, 1), Nil())), "int-spurious", "an error is reported for integers that can be read")
			}
		}, Eq(tag, Str("!!int")))
		st.with(func(s *State) {
			succ["bool"]++
			parsed := s.Is(Eq(Ext(ob, 1), Nil())) && s.Is(Eq(Ext(nb, 1), Nil()))
			if isOK {
				c.must(e, st, in, parsed, "bool-parse", "booleans are combined although they could not be read")
				for _, x := range []bool{false, true} {
					for _, y := range []bool{false, true} {
						a, b := Ext(ob, 0), Ext(nb, 0)
						if !x {
							a = Not(a)
						}
						if !y {
							b = Not(b)
						}
						s.with(func(s2 *State) {
							want := "false"
							if x && y {
								want = "true"
							}
							ok := false
							if t, isS := final.isStr(); isS {
								ok = t == want
							} else if final.op == OCall && final.s == "strconv.FormatBool" {
								ok = s2.Truth(final.args[0]) == tb(x && y)
							}
							c.must(e, st, in, ok, "bool-and", "combining %v and %v gives %v", x, y, final)
						}, a, b)
					}
				}
			} else {
				c.must(e, st, in, s.IsNot(Eq(Ext(ob, 1), Nil())) || s.IsNot(Eq(Ext(nb, 1), Nil())), "bool-spurious", "an error is reported for booleans that can be combined")
			}
		}, Eq(tag, Str("!!bool")))
		st.with(func(s *State) {
			succ["text"]++
			c.must(e, st, in, isOK, "text-spurious", "an error is reported for combinable text")
			if isOK {
				c.must(e, st, in, final == Concat(ov, nv), "text-concat", "combining text gives %v", final)
			}
		}, Not(Eq(tag, Str("!!int"))), Not(Eq(tag, Str("!!bool"))))
	}
	c.explore(root, r, nil, nil)
	for _, k := range []string{"int", "bool", "text"} {
		c.least("paths combining "+k, succ[k], 1)
	}
}

// noOverflow: the outcomes on the path exclude that the wrapped sum differs from the sum.
func noOverflow(s *State, a, b, sum *Term) bool {
	maxI, minI := Int(math.MaxInt64), Int(math.MinInt64)
	ok := true
	// both positive
	try := func(as []*Term, want ...*Term) {
		s.with(func(t *State) {
			for _, w := range want {
				if t.Is(w) {
					return
				}
			}
			ok = false
		}, as...)
	}
	pos := func(x *Term) *Term { return Lt(Int(0), x) }
	neg := func(x *Term) *Term { return Lt(x, Int(0)) }
	xa, xb := Bin("^", a, sum), Bin("^", b, sum)
	signs := []*Term{Leq(Int(0), Bin("&", xa, xb)), Leq(Int(0), Bin("&", xb, xa))}
	try([]*Term{pos(a), pos(b)}, append(signs, Leq(a, sum), Leq(b, sum), Leq(Int(0), sum), Leq(a, WSub(maxI, b)), Leq(b, WSub(maxI, a)))...)
	try([]*Term{neg(a), neg(b)}, append(signs, Leq(sum, a), Leq(sum, b), Leq(sum, Int(-1)), Leq(WSub(minI, b), a), Leq(WSub(minI, a), b))...)
	return ok
}

// overflowed: the path is only possible when the sum is out of range.
func overflowed(s *State, a, b, sum *Term) bool {
	ok := true
	zero := Int(0)
	bad := func(as ...*Term) {
		s.with(func(t *State) { ok = false }, as...)
	}
	pos := func(x *Term) *Term { return Lt(zero, x) }
	neg := func(x *Term) *Term { return Lt(x, zero) }
	xa, xb := Bin("^", a, sum), Bin("^", b, sum)
	mx, mn := Int(math.MaxInt64), Int(math.MinInt64)
	sg := []*Term{Leq(zero, Bin("&", xa, xb)), Leq(zero, Bin("&", xb, xa)), Leq(a, WSub(mx, b)), Leq(b, WSub(mx, a)), Leq(WSub(mn, b), a), Leq(WSub(mn, a), b)}
	bad(append(sg, pos(a), pos(b), Lt(a, sum), Lt(b, sum), pos(sum))...)
	bad(append(sg, neg(a), neg(b), Lt(sum, a), Lt(sum, b), neg(sum))...)
	bad(append(sg, Leq(zero, a), neg(b), Leq(b, sum), Lt(sum, a))...)
	bad(append(sg, neg(a), pos(b), Lt(a, sum), Lt(sum, b))...)
	bad(append(sg, EqInt(a, zero), Eq(sum, b), EqInt(Add(sum, b, -1), zero))...)
	bad(append(sg, EqInt(b, zero), Eq(sum, a), EqInt(Add(sum, a, -1), zero))...)
	return ok
}
