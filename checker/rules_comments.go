package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

var commentFields = []string{"HeadComment", "LineComment", "FootComment"}

// clearsComments decides whether f removes the comments of a node and of everything below it.
func (c *Check) clearsComments(f *ssa.Function) bool {
	if c.cleared == nil {
		c.cleared = map[*ssa.Function]bool{}
	}
	if v, ok := c.cleared[f]; ok {
		return v
	}
	pi := -1
	for i, p := range f.Params {
		if typeName(deref(p.Type())) == "yaml.Node" && isPtr(p.Type()) {
			pi = i
		}
	}
	if pi < 0 {
		return false
	}
	bad := len(c.findings)
	n := Param(f.Params[pi].Name(), f.Params[pi].Type())
	list := Fld(n, "Content")
	r := &Rule{Name: "clear"}
	sub := 0
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.recur && ev.callee == f {
			sub++
			ev.handled = true
			st.Set("sub:"+ref(ev.args[pi]), "1")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil || addr.op == OGlobal {
			return
		}
		s, ok := val.isStr()
		c.must(e, st, in, addr.op == OFA && addr.args[0] == n && commentField(addr.s) && ok && s == "", "other-write", "removing comments changes %v to %v", addr, val)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		st.forAll(ev, "sub", []*Term{list}, func(l, idx, el *Term) bool {
			return st.Get("sub:"+ref(el)) != ""
		})
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	rets := 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.Is(Eq(n, Nil())) {
			return
		}
		rets++
		for _, k := range commentFields {
			v := e.Load(st, FA(n, k), nil)
			s, ok := v.isStr()
			c.must(e, st, in, ok && s == "" || st.Is(Eq(v, Str(""))), "field|"+k, "the %s of a node is not known to be removed", k)
		}
		c.must(e, st, in, st.all("sub", list) != "" || st.emptyList(list), "children", "the comments of the children of a node are not known to be removed")
	}
	c.explore(f, r, nil, nil)
	ok := len(c.findings) == bad && rets > 0 && sub > 0
	c.cleared[f] = ok
	return ok
}

// ruleRemoveComments: removal of comments (C16).
func ruleRemoveComments(c *Check) {
	root := c.fn("instructions", "(*Config).GetInstructions")
	if root == nil {
		return
	}
	c.rule("On every successful path of GetInstructions on which the removeComments setting is known to be on, loops over all files of the returned instructions and all documents of each call the comment remover on every document; where it is known to be off the remover is not called. The remover sets the head, line and foot comment of its node to the empty string, calls itself on every element of Content and writes nothing else.")
	c.rule("Outside package actions comment fields are only written by the remover, and the remover is not reachable from applying overlays or from output.")
	P := c.P
	insT := deref(root.Signature.Results().At(0).Type())
	yfT := P.typ("instructions", "YamlFile")
	rI, rE := Param("read", root.Signature.Results().At(0).Type()), Ext(Call("ReadInstructionFile"), 1)
	writers := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "yaml.Node" && commentField(fieldName(deref(fa.X.Type()), fa.Field)) {
						if a, fresh := fa.X.(*ssa.Alloc); fresh && !decodedInto(a) {
							continue
						}
						writers[f] = true
					}
				}
			}
		}
	}
	isRemover := func(f *ssa.Function) bool {
		return P.recursive(f) && hasParam(f, "yaml.Node") && pkgShort(f) != "actions"
	}
	ioFns := map[*ssa.Function]bool{}
	isIO := func(f *ssa.Function) bool {
		v, ok := ioFns[f]
		if !ok {
			v = P.reachesCall(f, "os.Open", "os.OpenFile", "os.Stat", "filepath.Walk", "filepath.WalkDir", "os.ReadDir", "os.ReadFile")
			ioFns[f] = v
		}
		return v
	}
	removers := map[*ssa.Function]bool{}
	r := &Rule{Name: "remove", Stop: func(f *ssa.Function) bool {
		if calleeName(f) == fnReadIns || isRemover(f) {
			return true
		}
		if hasParam(f, "yaml.Node") {
			return false
		}
		return isIO(f) && !hasParam(f, "instructions.Instructions") || hasParam(f, "instructions.YamlFiles") && !P.reachesRemover(f, isRemover)
	}}
	cur := func(st *State) *Term { return unref(st.Get("keep:ins")) }
	filesOf := func(e *Engine, st *State) *Term {
		if i := cur(st); i != nil {
			return e.list(st, e.Load(st, FA(i, "YamlFiles"), fieldType(insT, "YamlFiles")))
		}
		return nil
	}
	on := Call("viper.GetBool", Str("removecomments"))
	n := map[string]int{}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch {
		case ev.name == "viper.GetBool":
			if s, ok := ev.args[0].isStr(); ok {
				ev.handled = true
				ev.results = []*Term{Call(ev.name, Str(strings.ToLower(s)))}
			}
		case ev.name == fnReadIns:
			ev.handled = true
			ev.results = []*Term{rI, rE}
			st.Set("keep:ins", ref(rI))
			st.facts.Assume(norm(Not(Eq(rI, Nil()))), true)
		case ev.callee != nil && ev.repo && isRemover(ev.callee):
			ev.handled = true
			removers[ev.callee] = true
			n["calls"]++
			c.must(e, st, ev.instr, st.Is(on), "off", "comments are removed although the setting is not known to be on")
			for i, p := range ev.callee.Params {
				if typeName(deref(p.Type())) == "yaml.Node" {
					a := ev.args[i]
					doc := a.op == OLD && a.args[0].op == OEA && a.args[0].args[0].op == OLD && a.args[0].args[0].args[0].op == OFA && a.args[0].args[0].args[0].s == "Nodes"
					c.must(e, st, ev.instr, doc, "target", "comments are removed from %v, which is no document of a file", a)
					st.Set("rm:"+ref(a), "1")
				}
			}
		case ev.repo && reachesFiles(ev.callee):
			c.must(e, st, ev.instr, st.Get("keep:removed") == "", "after", "%s is called after comments were removed", ev.name)
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OFA && (addr.s == "YamlFiles" || addr.s == "CommonOverlays") && st.rootFresh(addr) != nil && cur(st) == nil {
			st.Set("keep:ins", ref(addr.args[0]))
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		fl := filesOf(e, st)
		if fl == nil {
			return
		}
		outer, _ := st.iters()
		nodesOf := func(k *Term) *Term {
			return e.list(st, e.Load(st, FA(e.Load(st, EA(fl, k), nil), "Nodes"), fieldType(yfT, "Nodes")))
		}
		var nodes []*Term
		for _, k := range outer {
			nodes = append(nodes, nodesOf(k))
		}
		st.forAll(ev, "rmnode", nodes, func(l, idx, el *Term) bool { return st.Get("rm:"+ref(e.Load(st, EA(l, idx), nil))) != "" })
		st.forAll(ev, "rm", []*Term{fl}, func(l, idx, el *Term) bool {
			nl := nodesOf(idx)
			if st.all("rmnode", nl) != "" {
				st.Set("keep:removed", "1")
				return true
			}
			return false
		})
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 2 {
			return
		}
		st.with(func(s *State) {
			if cur(s) == nil {
				s.Set("keep:ins", ref(res[0]))
			}
			fl := filesOf(e, s)
			s.with(func(s *State) {
				n["on"]++
				c.must(e, st, in, s.all("rm", fl) != "" || s.emptyList(fl), "not-all", "with comment removal on, the comments of every document of every file are not known to be removed")
			}, on)
			s.with(func(s *State) { n["off"]++ }, Not(on))
		}, Eq(res[1], Nil()))
	}
	c.explore(root, r, nil, nil)
	c.least("calls of the comment remover", n["calls"], 1)
	c.least("successful paths with comment removal", n["on"], 1)
	c.least("successful paths without comment removal", n["off"], 1)
	for f := range removers {
		c.Must(c.clearsComments(f), "remover|"+fnLabel(f), P.pos(f.Pos()), "%s is not known to remove all comments of a document", fnLabel(f))
	}
	var late []*ssa.Function
	for _, x := range [][2]string{{"overlays", "(*Overlay).Apply"}, {"actions", "MergeNode"}} {
		if f := c.fn(x[0], x[1]); f != nil {
			late = append(late, f)
		}
	}
	for f := range P.outputFns() {
		late = append(late, f)
	}
	for _, f := range sortedFns(writers) {
		if pkgShort(f) == "actions" {
			continue
		}
		own := removers[f]
		for g := range removers {
			own = own || P.reaches(g, f)
		}
		c.Must(own, "writer|"+fnLabel(f), P.pos(f.Pos()), "%s writes comments of documents but is no part of the comment remover", fnLabel(f))
	}
	for _, g := range late {
		for f := range removers {
			c.Must(!P.reaches(g, f), "late|"+fnLabel(g), P.pos(g.Pos()), "comments are removed by %s (%s)", fnLabel(g), P.chain([]*ssa.Function{g}, f))
		}
	}
}

// decodedInto: the object is filled by decoding.
func decodedInto(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MakeInterface:
			if decodedInto(x) {
				return true
			}
		case ssa.CallInstruction:
			if n, _ := callName(x); strings.HasSuffix(n, "Decode") || strings.HasSuffix(n, "Unmarshal") {
				return true
			}
		}
	}
	return false
}

func (P *Program) reachesRemover(f *ssa.Function, is func(*ssa.Function) bool) bool {
	for g := range P.reach(f) {
		if is(g) {
			return true
		}
	}
	return false
}
