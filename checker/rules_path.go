package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fnPrefix = "instructions.GetCommonPrefix"

// ruleOutputPath: the output path each file gets (C12).
func ruleOutputPath(c *Check) {
	root := c.fn("instructions", "(*Config).GetInstructions")
	pf := c.fn("instructions", "GetCommonPrefix")
	if root == nil || pf == nil {
		return
	}
	c.rule("On every successful path of GetInstructions GetCommonPrefix is called with a list that one loop built from the paths of exactly those files of the final list that are known not to be standard input, and one loop over all files of the final list leaves each file's output path as follows: where it is known to be empty the path without the common prefix, where it is known to have no extension Join of it and the base name of the path, and otherwise unchanged; nothing that may change files or their paths runs afterwards.")
	insT := deref(root.Signature.Results().At(0).Type())
	yfT := c.P.typ("instructions", "YamlFile")
	rI, rE := Param("read", root.Signature.Results().At(0).Type()), Ext(Call("ReadInstructionFile"), 1)
	prefix := Call("prefix")
	n := map[string]int{}
	ioFns := map[*ssa.Function]bool{}
	isIO := func(f *ssa.Function) bool {
		v, ok := ioFns[f]
		if !ok {
			v = c.P.reachesCall(f, "os.Open", "os.OpenFile", "os.Stat", "filepath.Walk", "filepath.WalkDir", "os.ReadDir", "os.ReadFile")
			ioFns[f] = v
		}
		return v
	}
	r := &Rule{Name: "outpath", Stop: func(f *ssa.Function) bool {
		if calleeName(f) == fnReadIns || f == pf || hasParam(f, "yaml.Node") || hasParam(f, "instructions.YamlFiles") && !c.P.reaches(f, pf) && !stringParam(f) {
			return true
		}
		return isIO(f) && !hasParam(f, "instructions.Instructions")
	}}
	cur := func(st *State) *Term { return unref(st.Get("keep:ins")) }
	filesOf := func(e *Engine, st *State) *Term {
		if i := cur(st); i != nil {
			return e.list(st, e.Load(st, FA(i, "YamlFiles"), fieldType(insT, "YamlFiles")))
		}
		return nil
	}
	strT := fieldType(yfT, "Path")
	acc := &Acc{key: "paths", lists: func(st *State) []*Term {
		if l := unref(st.Get("keep:files")); l != nil {
			return []*Term{l}
		}
		return nil
	}}
	var eng *Engine
	acc.match = func(st *State, list, idx, el, sfx *Term) bool {
		e := eng
		p := e.Load(st, FA(e.Load(st, EA(list, idx), nil), "Path"), strT)
		dash := Eq(p, Str("-"))
		if sfx.op != OElems {
			return false
		}
		switch len(sfx.args) {
		case 0:
			return st.Is(dash)
		case 1:
			return st.IsNot(dash) && sfx.args[0] == p
		}
		return false
	}
	r.OnPhi = acc.onPhi
	r.OnInline = func(e *Engine, st *State, callee *ssa.Function, args []*Term, in ssa.Instruction) {
		for i, p := range callee.Params {
			if typeName(p.Type()) == "*instructions.Instructions" && cur(st) == nil {
				st.Set("keep:ins", ref(args[i]))
			}
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		if normPath(e, st, ev) {
			return
		}
		switch {
		case ev.name == fnReadIns:
			ev.handled = true
			ev.results = []*Term{rI, rE}
			st.Set("keep:ins", ref(rI))
			st.facts.Assume(norm(Not(Eq(rI, Nil()))), true)
		case ev.callee == pf:
			ev.handled = true
			ev.results = []*Term{prefix}
			n["prefix"]++
			s, ok := ev.args[0].isInt()
			c.must(e, st, in, ok && s == '/', "separator", "the common prefix is computed with the separator %v", ev.args[0])
			fl := filesOf(e, st)
			c.must(e, st, in, fl != nil && (acc.built(e, st, ev.args[1], fl) || st.emptyList(fl)), "prefix-paths", "the common prefix is computed from %v, which is not known to be the paths of all files that are not standard input", ev.args[1])
			if fl != nil {
				st.Set("keep:prefix", ref(fl))
			}
		case ev.callee != nil && hasParam(ev.callee, "yaml.Node") && !hasParam(ev.callee, "instructions.YamlFile"):
			ev.handled = true
		case ev.repo && reachesFiles(ev.callee):
			c.must(e, st, in, st.Get("keep:set") == "", "changed-after", "%s is called after the output paths were determined", ev.name)
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != OFA {
			return
		}
		switch addr.s {
		case "YamlFiles":
			if st.rootFresh(addr) != nil && cur(st) == nil {
				st.Set("keep:ins", ref(addr.args[0]))
			}
			c.must(e, st, in, st.Get("keep:set") == "", "changed-after", "the list of files is changed after the output paths were determined")
		case "Path":
			if typeName(yfT) == "instructions.YamlFile" && st.rootFresh(addr) == nil {
				c.must(e, st, in, st.Get("keep:prefix") == "", "path-after", "the path of a file is changed after the common prefix was determined")
			}
		case "OutputPath":
			if st.rootFresh(addr) != nil {
				return
			}
			fl := filesOf(e, st)
			f := addr.args[0]
			if !c.must(e, st, in, fl != nil && f.op == OLD && f.args[0].op == OEA && f.args[0].args[0] == fl, "target", "the output path of %v, which is not one of the files, is changed", f) {
				return
			}
			n["stores"]++
			k := f.args[0].args[1]
			if st.Get("orig:"+ref(k)) == "" {
				st.Set("orig:"+ref(k), ref(e.Load(st, addr, strT)))
			}
			st.Set("keep:set", "1")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		eng = e
		if fl := filesOf(e, st); fl != nil {
			st.Set("keep:files", ref(fl))
			st.forAll(ev, "outp", []*Term{fl}, func(l, idx, el *Term) bool {
				f := e.Load(st, EA(l, idx), nil)
				p := e.Load(st, FA(f, "Path"), strT)
				fin := e.Load(st, FA(f, "OutputPath"), strT)
				o := unref(st.Get("orig:" + ref(idx)))
				if o == nil {
					o = fin
				}
				ok := true
				ext := Call("path.Ext", o)
				st.with(func(s *State) {
					ok = ok && fin == Call("strings.TrimPrefix", p, prefix)
				}, Eq(o, Str("")), Eq(ext, Str("")))
				st.with(func(s *State) {
					ok = ok && fin == Call("path.Join", Elems(o, Call("path.Base", p)))
				}, Not(Eq(o, Str(""))), Eq(ext, Str("")))
				st.with(func(s *State) {
					ok = ok && fin == o
				}, Not(Eq(o, Str(""))), Not(Eq(ext, Str(""))))
				return ok
			})
		}
		acc.onLoop(e, st, ev)
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 2 {
			return
		}
		st.with(func(s *State) {
			if cur(s) == nil {
				s.Set("keep:ins", ref(res[0]))
			}
			if !c.must(e, s, in, cur(s) == res[0], "result", "the instructions returned (%v) are not the ones that were completed", res[0]) {
				return
			}
			n["success"]++
			fl := filesOf(e, s)
			if s.emptyList(fl) {
				return
			}
			c.must(e, s, in, s.Get("keep:prefix") == ref(fl), "other-list", "the common prefix was not determined from the final list of files")
			c.must(e, s, in, s.all("outp", fl) != "", "not-all", "the output path of a file is not known to be the documented one")
		}, Eq(res[1], Nil()))
	}
	c.explore(root, r, nil, nil)
	c.least("calls of GetCommonPrefix", n["prefix"], 1)
	c.least("places where an output path is set", n["stores"], 1)
	c.least("successful paths of GetInstructions", n["success"], 2)
	c.commonPrefix(pf)
}

// strlens lists the strings something is known about the length of.
func (st *State) strlens() []*Term {
	m := map[*Term]bool{}
	for t := range st.facts.ints {
		at, _, _ := linear(t)
		for _, a := range at {
			if a.op == OCall && a.s == "strlen" {
				m[a.args[0]] = true
			}
		}
	}
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func stringParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isString(p.Type()) {
			return true
		}
	}
	return false
}

// commonPrefix: GetCommonPrefix gives the longest common directory.
func (c *Check) commonPrefix(f *ssa.Function) {
	c.rule("On every path of GetCommonPrefix: no path gives the empty string; a single one gives its directory with a separator; with several the candidate starts as the first path with a separator behind it and is, for every other path (with a separator behind it) in one loop, shortened to the length of the path where it is longer and then to the first position at which they differ (all positions before are known to be equal); the result is the part of the final candidate before its last separator, with a separator, or empty where there is none.")
	sep, ps := Param(f.Params[0].Name(), f.Params[0].Type()), Param(f.Params[1].Name(), f.Params[1].Type())
	conv := func(t *Term) bool {
		if s, ok := t.isStr(); ok {
			return s == "/"
		}
		return t.op == OCall && strings.HasPrefix(t.s, "conv:string") && t.args[0] == sep
	}
	clean := func(t *Term) *Term { return Call("path.Clean", t) }
	// withSep: t is x followed by a separator
	withSep := func(t *Term) *Term {
		if t.op == OConcat && len(t.args) == 2 && conv(t.args[1]) {
			return t.args[0]
		}
		return nil
	}
	sub := func(s, hi *Term) *Term { return Call("substr", s, Int(0), hi) }
	at := func(s, i *Term) *Term { return Call("index", s, i) }
	slen := func(s *Term) *Term {
		if v, ok := s.isStr(); ok {
			return Int(int64(len(v)))
		}
		return Call("strlen", s)
	}
	n := map[string]int{}
	r := &Rule{Name: "prefix"}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		normPath(e, st, ev)
		if ev.name == "strings.LastIndex" && conv(ev.args[1]) {
			ev.handled = true
			ev.results = []*Term{Call("strings.LastIndexByte", ev.args[0], sep)}
		}
	}
	// longest: x is known to be the longest common prefix of o and w
	short := func(st *State, c1, o, w *Term) bool {
		return c1 == o && st.Is(Leq(slen(o), slen(w))) || c1 == sub(o, slen(w)) && st.Is(Leq(slen(w), slen(o)))
	}
	longest := func(st *State, x, o, w *Term) bool {
		if short(st, x, o, w) && (st.Is(Leq(slen(x), Int(0))) || st.Get("keep:empty:"+ref(x)) != "") {
			return true
		}
		for _, it := range st.listed("keep:eq:") {
			fs := strings.Split(st.Get("keep:eq:"+ref(it)), "|")
			if fs[0] == "any" {
				fs = []string{ref(o), ref(w), ref(sub(o, slen(w))), ref(w)}
			}
			for i := 0; i+1 < len(fs); i += 2 {
				a, b := unref(fs[i]), unref(fs[i+1])
				for _, p := range [][2]*Term{{a, b}, {b, a}} {
					c1 := p[0]
					if p[1] != w {
						continue
					}
					if c1 == o && x == sub(o, it) && (st.IsNot(Lt(it, slen(o))) || st.IsNot(Lt(it, slen(w))) || st.IsNot(Eq(at(o, it), at(w, it)))) {
						return true
					}
					if !short(st, c1, o, w) {
						continue
					}
					if x == c1 && st.IsNot(Lt(it, slen(c1))) {
						return true
					}
					if x == sub(c1, it) && st.IsNot(Eq(at(c1, it), at(w, it))) {
						return true
					}
				}
			}
		}
		return false
	}
	r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
		if !isString(ph.Type()) || old == nil {
			return
		}
		it := iterOf(l, st.top().ctx)
		pt := phiTerm(ph, st.top().ctx)
		// compared with all paths, or all but the first
		for d, k := range []string{"0:", "1:"} {
			w := Concat(clean(El(ps, AddN(it, int64(d)))), Str("/"))
			w2 := Concat(clean(El(ps, AddN(it, int64(d)))), Call("conv:string", sep))
			ok := longest(st, nw, old, w) || longest(st, nw, old, w2)
			// the first value
			if old.op != OPhi {
				x := withSep(old)
				ok = ok && x == clean(El(ps, Int(0)))
			}
			if !ok {
				st.Set("bad:lcp"+k+ref(pt), "1")
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		id := ref(ev.iter)
		switch ev.kind {
		case "enter":
			for _, k := range []string{"run:", "eq:", "nosep:"} {
				st.Set("keep:"+k+id, "")
			}
			for _, t := range st.listed("keep:empty:") {
				st.Set("keep:empty:"+ref(t), "")
			}
			st.Set("bad:nosep:"+id, "")
		case "back", "exit":
			// pairs of strings known to be equal at all positions so far
			if ev.kind == "back" {
				cur := ""
				for _, t := range st.factEqs() {
					if t.op == OEq && st.Is(t) && t.args[0].op == OCall && t.args[0].s == "index" && t.args[1].op == OCall && t.args[1].s == "index" && t.args[0].args[1] == ev.iter && t.args[1].args[1] == ev.iter {
						cur += ref(t.args[0].args[0]) + "|" + ref(t.args[1].args[0]) + "|"
					}
				}
				if old := st.Get("keep:run:" + id); cur == "" || old != "" && old != cur {
					cur = "none"
				}
				st.Set("keep:run:"+id, cur)
				good := false
				for _, t := range st.factEqs() {
					if t.op == OEq && st.IsNot(t) {
						for i := 0; i < 2; i++ {
							if x := t.args[i]; x.op == OCall && x.s == "index" && t.args[1-i] == sep && x.args[1] == AddN(Add(slen(x.args[0]), ev.iter, -1), -1) {
								good = true
								st.Set("keep:nosep:"+id, ref(x.args[0])+" "+id+" ")
							}
						}
					}
				}
				if !good {
					st.Set("bad:nosep:"+id, "1")
				}
			} else {
				run := st.Get("keep:run:" + id)
				if run == "" {
					// left in the first iteration: nothing was passed
					run = "any"
				}
				if run != "none" && run != "" {
					st.Set("keep:eq:"+id, run)
				}
				for _, C := range st.strlens() {
					if st.Is(Leq(slen(C), Int(0))) {
						st.Set("keep:empty:"+ref(C), "1")
					}
				}
				for _, in := range ev.l.header.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && isString(ph.Type()) {
						pt := ref(phiTerm(ph, ev.ctx))
						all := st.Get("bad:lcp0:"+pt) == "" && st.IsNot(Lt(ev.iter, LenOf(ps))) || st.Get("bad:lcp1:"+pt) == "" && st.IsNot(Lt(AddN(ev.iter, 1), LenOf(ps)))
						if v := st.top().env[ph]; v != nil && all {
							st.Set("keep:lcp:"+ref(v), ref(v)+" ")
							n["lcp"]++
						}
					}
				}
			}
		}
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		R := res[0]
		st.with(func(s *State) {
			n["none"]++
			v, ok := R.isStr()
			c.must(e, s, in, ok && v == "", "none", "without a path the common prefix is %v", R)
		}, EqInt(LenOf(ps), Int(0)))
		st.with(func(s *State) {
			n["one"]++
			x := withSep(R)
			ok := false
			if x != nil && x.op == OCall && (x.s == "strings.TrimSuffix" || x.s == "strings.TrimRight") && conv(x.args[1]) {
				d := x.args[0]
				ok = d == Call("path.Dir", clean(El(ps, Int(0)))) || d == Call("path.Dir", El(ps, Int(0)))
			}
			c.must(e, s, in, ok, "one", "the prefix of a single path is %v instead of its directory with a separator", R)
		}, EqInt(LenOf(ps), Int(1)))
		st.with(func(s *State) {
			n["many"]++
			lcp := func(C *Term) bool { return s.Get("keep:lcp:"+ref(C)) != "" }
			ok := false
			if v, isS := R.isStr(); isS && v == "" {
				// no separator in the candidate
				for _, C := range s.listed("keep:lcp:") {
					for _, it := range s.listed("keep:nosep:") {
						if s.Get("bad:nosep:"+ref(it)) == "" && strings.HasPrefix(s.Get("keep:nosep:"+ref(it)), ref(C)+" ") && s.IsNot(Leq(Int(0), AddN(Add(slen(C), it, -1), -1))) {
							ok = true
						}
					}
					ok = ok || s.Is(Leq(slen(C), Int(0))) || s.Get("keep:empty:"+ref(C)) != ""
					L := Call("strings.LastIndexByte", C, sep)
					ok = ok || s.IsNot(Leq(Int(0), L)) || s.Is(EqInt(L, Int(-1)))
				}
			}
			cut, plus := withSep(R), false
			if cut == nil && R.op == OCall && R.s == "substr" {
				cut, plus = R, true
			}
			if cut != nil && cut.op == OCall && cut.s == "substr" && isZero(cut.args[1]) && lcp(cut.args[0]) {
				C, hi := cut.args[0], cut.args[2]
				if plus {
					hi = AddN(hi, -1)
				}
				L := Call("strings.LastIndexByte", C, sep)
				if hi == L && (plus || s.Is(Leq(Int(0), L))) {
					ok = true
				}
				for _, t := range s.factEqs() {
					if t.op == OEq && s.Is(t) {
						for i := 0; i < 2; i++ {
							x := t.args[i]
							if x == at(C, hi) && t.args[1-i] == sep {
								// every later position was seen and is no separator
								it := Add(AddN(slen(C), -1), hi, -1)
								if it.op == OIter && s.Get("bad:nosep:"+ref(it)) == "" {
									ok = true
								}
							}
						}
					}
				}
			}
			c.must(e, s, in, ok, "many", "the common prefix of several paths is %v, which is not known to be the part of the common candidate before its last separator", R)
		}, Leq(Int(2), LenOf(ps)))
	}
	c.explore(f, r, nil, nil)
	c.least("paths of GetCommonPrefix without, with one and with several paths", n["none"]*n["one"]*n["many"], 1)
	c.least("loops computing the common part", n["lcp"], 1)
}
