package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	fnReadIns = "(*instructions.Config).ReadInstructionFile"
)

// reachesAny: f can call one of the named library functions.
func (P *Program) reachesCall(f *ssa.Function, names ...string) bool {
	for g := range P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				n, _ := callName(in)
				for _, x := range names {
					if n == x {
						return true
					}
				}
			}
		}
	}
	return false
}

func hasParam(f *ssa.Function, ty string) bool {
	for _, p := range f.Params {
		if typeName(deref(p.Type())) == ty {
			return true
		}
	}
	return false
}

// sharedBase tells why the array behind a slice value may be shared by several runs of the code that makes it:
// the value is traced to the places its array comes from, which must be executed again each time.
func (P *Program) sharedBase(v ssa.Value, at *ssa.BasicBlock, base bool, seen map[ssa.Value]bool) (string, ssa.Instruction) {
	if seen[v] {
		return "", nil
	}
	seen[v] = true
	again := func(in ssa.Instruction) (string, ssa.Instruction) {
		if at == nil || in.Parent() != at.Parent() {
			return "", nil
		}
		for _, l := range P.loops(at.Parent()).loops {
			if l.blocks[at] && !l.blocks[in.Block()] {
				return "an array made before the loop", in
			}
		}
		return "", nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return "", nil
	case *ssa.MakeSlice:
		return again(x)
	case *ssa.Alloc:
		return again(x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s, in := P.sharedBase(e, at, base, seen); s != "" {
				return s, in
			}
		}
		return "", nil
	case *ssa.ChangeType:
		return P.sharedBase(x.X, at, base, seen)
	case *ssa.Slice:
		if x.Max != nil && (x.Max == x.High || isLenOf(x.Max, x.X) && (x.High == nil || isLenOf(x.High, x.X))) {
			return "", nil // appending to it makes a copy
		}
		return P.sharedBase(x.X, at, base, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return P.sharedBase(x.Call.Args[0], at, true, seen)
		}
		f := x.Call.StaticCallee()
		if f != nil && P.inRepo(f) && f.Blocks != nil {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range r.Results {
						if !isSliceType(rv.Type()) {
							continue
						}
						// parameters stand for the arguments of this call
						if p, ok := paramRoot(rv); ok {
							for i, q := range f.Params {
								if q == p && i < len(x.Call.Args) {
									if s, in := P.sharedBase(x.Call.Args[i], at, base || appended(rv), seen); s != "" {
										return s, in
									}
								}
							}
							continue
						}
						if s, in := P.sharedBase(rv, b, base, seen); s != "" {
							return s, in
						}
					}
				}
			}
			return "", nil
		}
		return "the result of a call", x
	}
	if !base {
		return "", nil
	}
	in, _ := v.(ssa.Instruction)
	if in == nil {
		in = at.Instrs[0]
	}
	return "a slice that others use too", in
}

func isLenOf(v, s ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && len(c.Call.Args) == 1 && (c.Call.Args[0] == s || sameLoad(c.Call.Args[0], s))
}

// sameLoad: both values load the same field of the same object.
func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && f.X == g.X
}

// paramRoot: the parameter whose array v continues.
func paramRoot(v ssa.Value) (*ssa.Parameter, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x, true
		case *ssa.Slice:
			if x.Max != nil {
				return nil, false
			}
			v = x.X
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				v = x.Call.Args[0]
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
}

func appended(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.Call:
			return true
		default:
			return false
		}
	}
}

// ruleCommon: the list of overlays of every file (C03).
func ruleCommon(c *Check) {
	root := c.fn("instructions", "(*Config).GetInstructions")
	if root == nil {
		return
	}
	c.rule("On every successful path of GetInstructions one loop over all files of the returned instructions stores to each file's Overlays, once, exactly the elements of the final CommonOverlays followed by the file's own overlays, in an array of its own (the array behind the stored slice is made again for every file and is never one that other files use); the final CommonOverlays are the ones read from the instructions, followed by the command line overlay exactly when it has a query; nothing that may change files runs afterwards.")
	cfg := Param(root.Params[0].Name(), root.Params[0].Type())
	cli := FA(cfg, "Overlay")
	cq := Fld(cli, "Query")
	read := Call("ReadInstructionFile")
	rI, rE := Param("read", root.Signature.Results().At(0).Type()), Ext(read, 1)
	n := map[string]int{}
	insT := deref(root.Signature.Results().At(0).Type())
	ioFns := map[*ssa.Function]bool{}
	isIO := func(f *ssa.Function) bool {
		v, ok := ioFns[f]
		if !ok {
			v = c.P.reachesCall(f, "os.Open", "os.OpenFile", "os.Stat", "filepath.Walk", "filepath.WalkDir", "os.ReadDir", "os.ReadFile")
			ioFns[f] = v
		}
		return v
	}
	node := func(f *ssa.Function) bool { return hasParam(f, "yaml.Node") && !hasParam(f, "instructions.YamlFile") }
	stop := func(f *ssa.Function) bool {
		if calleeName(f) == fnReadIns || node(f) || hasParam(f, "instructions.YamlFiles") {
			return true
		}
		return isIO(f) && !hasParam(f, "instructions.Instructions")
	}
	r := &Rule{Name: "common", Stop: stop}
	// the instructions being completed on this path
	cur := func(st *State) *Term { return unref(st.Get("keep:ins")) }
	filesOf := func(e *Engine, st *State) *Term {
		i := cur(st)
		if i == nil {
			return nil
		}
		return e.list(st, e.Load(st, FA(i, "YamlFiles"), fieldType(insT, "YamlFiles")))
	}
	commonOf := func(e *Engine, st *State) *Term {
		i := cur(st)
		if i == nil {
			return nil
		}
		return e.list(st, e.Load(st, FA(i, "CommonOverlays"), fieldType(insT, "CommonOverlays")))
	}
	changed := func(e *Engine, st *State, in ssa.Instruction, what string) {
		c.must(e, st, in, st.Get("keep:set") == "", "changed-after", "%s after the overlays of the files were put together", what)
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch {
		case ev.name == fnReadIns:
			ev.handled = true
			ev.results = []*Term{rI, rE}
			st.Set("keep:ins", ref(rI))
			st.facts.Assume(norm(Not(Eq(rI, Nil()))), true)
		case ev.callee != nil && node(ev.callee):
			ev.handled = true
		case ev.repo && reachesFiles(ev.callee):
			changed(e, st, ev.instr, ev.name+" is called")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != OFA {
			return
		}
		switch addr.s {
		case "YamlFiles":
			if st.rootFresh(addr) != nil && cur(st) == nil {
				st.Set("keep:ins", ref(addr.args[0]))
			}
			changed(e, st, in, "the list of files is changed")
		case "CommonOverlays":
			if st.rootFresh(addr) != nil && cur(st) == nil {
				st.Set("keep:ins", ref(addr.args[0]))
			}
			changed(e, st, in, "the common overlays are changed")
		case "Documents":
			if st.rootFresh(addr) == nil {
				c.must(e, st, in, false, "documents", "the document entries of %v are changed", addr.args[0])
			}
		case "Overlays":
			if st.rootFresh(addr) != nil {
				return
			}
			fl := filesOf(e, st)
			f := addr.args[0]
			if !c.must(e, st, in, fl != nil && f.op == OLD && f.args[0].op == OEA && f.args[0].args[0] == fl, "target", "the overlays of %v are changed, which is not one of the files", f) {
				return
			}
			n["stores"]++
			k := f.args[0].args[1]
			own := e.Load(st, addr, nil)
			com := commonOf(e, st)
			want := Cat(com, e.list(st, own))
			got := e.list(st, val)
			same := got == want || st.emptyList(com) && got == e.list(st, own)
			c.must(e, st, in, same, "elements", "the overlays of a file become %v instead of the common overlays %v followed by its own", got, com)
			c.must(e, st, in, st.Get("set:"+ref(k)) == "" && st.all("set", fl) == "", "twice", "common overlays are added to a file twice")
			st.Set("set:"+ref(k), "1")
			st.Set("keep:set", "1")
			st.Set("keep:com", ref(com))
			if s, ok := in.(*ssa.Store); ok && !st.emptyList(com) {
				why, at := c.P.sharedBase(s.Val, s.Block(), false, map[ssa.Value]bool{})
				if why != "" {
					c.must(e, st, at, false, "array", "the overlays of several files share %s", why)
				}
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if fl := filesOf(e, st); fl != nil {
			st.forAll(ev, "set", []*Term{fl}, func(l, idx, el *Term) bool {
				return st.Get("set:"+ref(idx)) != ""
			})
		}
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	// the loads of the final lists
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 2 {
			return
		}
		st.with(func(s *State) {
			n["success"]++
			i := res[0]
			if cur(s) == nil {
				s.Set("keep:ins", ref(i))
			}
			if !c.must(e, st, in, cur(s) == i, "result", "the instructions returned (%v) are not the ones that were completed", i) {
				return
			}
			com, fl := commonOf(e, s), filesOf(e, s)
			c0 := LD(FA(rI, "CommonOverlays"), 0)
			if i != rI {
				c0 = Elems()
			}
			n["final"]++
			c.must(e, st, in, s.all("set", fl) != "" || s.emptyList(com) || s.emptyList(fl), "not-all", "the overlays are not known to have been put together for every file (%v)", fl)
			if g := unref(s.Get("keep:com")); g != nil {
				c.must(e, st, in, g == com, "late-common", "the common overlays change after they were added to a file")
			}
			s.with(func(s *State) {
				n["cli"]++
				ps := parts(com)
				last := ps[len(ps)-1]
				ok := last.op == OElems && len(last.args) == 1 && isCLI(e, s, last.args[0], cli, cq) && (com == Cat(c0, last) || s.emptyList(c0))
				c.must(e, st, in, ok, "command-line", "with a command line overlay the common overlays are %v instead of %v followed by it", com, c0)
			}, Not(Eq(cq, Nil())), Not(EqInt(LenOf(cq), Int(0))))
			s.with(func(s *State) {
				n["nocli"]++
				c.must(e, st, in, com == c0 || s.emptyList(com) && s.emptyList(c0), "no-command-line", "without a command line overlay the common overlays are %v instead of %v", com, c0)
			}, Eq(cq, Nil()))
		}, Eq(res[1], Nil()))
	}
	c.explore(root, r, nil, nil)
	c.least("places where a file's overlays are put together", n["stores"], 1)
	c.least("successful paths of GetInstructions", n["success"], 2)
	c.least("successful paths with a command line overlay", n["cli"], 1)
	c.least("successful paths without a command line overlay", n["nocli"], 1)
}

// reachesFiles: a parameter leads to files or overlays.
func reachesFiles(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := deref(p.Type())
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = deref(s.Elem())
		}
		switch typeName(t) {
		case "instructions.Instructions", "instructions.YamlFiles", "instructions.YamlFile", "instructions.Config", "instructions.Document", "overlays.Overlay":
			return true
		}
	}
	return false
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func isCLI(e *Engine, s *State, x, cli, cq *Term) bool {
	return x == cli || s.rootFresh(x) != nil && e.Load(s, FA(x, "Query"), nil) == cq
}
