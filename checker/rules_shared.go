package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- workers

type spawn struct {
	in   ssa.Instruction
	fn   *ssa.Function // containing function
	body []*ssa.Function
	val  ssa.Value // the function value, or nil for a go statement on a static callee
	args []ssa.Value
	clos []*ssa.MakeClosure
}

func isSpawnCall(name string) bool {
	return name == "(*errgroup.Group).Go" || name == "(*errgroup.Group).TryGo" || name == "(*sync.WaitGroup).Go"
}

func isWait(name string) bool {
	return name == "(*errgroup.Group).Wait" || name == "(*sync.WaitGroup).Wait"
}

// funcValues resolves a function value to the functions it can be.
func funcValues(P *Program, v ssa.Value, seen map[ssa.Value]bool) (fns []*ssa.Function, cl []*ssa.MakeClosure, ok bool) {
	if seen[v] {
		return nil, nil, true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{x}, nil, true
	case *ssa.MakeClosure:
		return []*ssa.Function{x.Fn.(*ssa.Function)}, []*ssa.MakeClosure{x}, true
	case *ssa.ChangeType:
		return funcValues(P, x.X, seen)
	case *ssa.Phi:
		ok = true
		for _, e := range x.Edges {
			f, c, o := funcValues(P, e, seen)
			fns, cl, ok = append(fns, f...), append(cl, c...), ok && o
		}
		return
	case *ssa.UnOp:
		// a variable holding a function: the values stored to it
		if al, isA := x.X.(*ssa.Alloc); isA && x.Op == token.MUL {
			ok = true
			n := 0
			for _, r := range *al.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr != al {
						return nil, nil, false
					}
					n++
					f, c, o := funcValues(P, s.Val, seen)
					fns, cl, ok = append(fns, f...), append(cl, c...), ok && o
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil, nil, false
				}
			}
			return fns, cl, ok && n > 0
		}
	case *ssa.Call:
		f := x.Common().StaticCallee()
		if f == nil || !P.inRepo(f) || f.Blocks == nil {
			return nil, nil, false
		}
		ok = true
		for _, b := range f.Blocks {
			if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && len(r.Results) == 1 {
				g, c, o := funcValues(P, r.Results[0], seen)
				fns, cl, ok = append(fns, g...), append(cl, c...), ok && o
			}
		}
		return
	}
	return nil, nil, false
}

// spawns finds the places where the processing of files starts goroutines; those inside a worker belong to the worker.
func (P *Program) spawns(root *ssa.Function) (top []spawn, all []spawn, unresolved []ssa.Instruction) {
	rs := P.reach(root)
	var sp []spawn
	for _, f := range sortedFns(rs) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				var args []ssa.Value
				switch x := in.(type) {
				case *ssa.Go:
					if x.Common().IsInvoke() {
						unresolved = append(unresolved, in)
						continue
					}
					v, args = x.Common().Value, x.Common().Args
				case *ssa.Call:
					fn := x.Common().StaticCallee()
					if fn == nil || !isSpawnCall(calleeName(fn)) {
						continue
					}
					v = x.Common().Args[1]
				default:
					continue
				}
				if _, isB := v.(*ssa.Builtin); isB {
					continue
				}
				fns, cl, ok := funcValues(P, v, map[ssa.Value]bool{})
				if !ok {
					unresolved = append(unresolved, in)
					continue
				}
				var repo []*ssa.Function
				for _, g := range fns {
					if P.inRepo(g) && g.Blocks != nil {
						repo = append(repo, g)
					}
				}
				sp = append(sp, spawn{in: in, fn: f, body: repo, val: v, args: args, clos: cl})
			}
		}
	}
	inner := map[*ssa.Function]bool{}
	for _, s := range sp {
		for f := range P.reach(s.body...) {
			inner[f] = true
		}
	}
	for _, s := range sp {
		if !inner[s.fn] {
			top = append(top, s)
		}
	}
	return top, sp, unresolved
}

// after visits the instructions that can run after in, until stop says so.
func after(in ssa.Instruction, visit func(x ssa.Instruction) bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			if !visit(b.Instrs[i]) {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			walk(in.Block(), i+1)
			return
		}
	}
}

func callName(in ssa.Instruction) (string, *ssa.Function) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return "", nil
	}
	return calleeName(f), f
}

// workerAlias runs the points-to analysis for the workers of the run.
func (c *Check) workerAlias() *alias {
	P := c.P
	root := c.fn("instructions", "Execute")
	apply := c.fn("overlays", "(*Overlay).Apply")
	if root == nil || apply == nil {
		return nil
	}
	a := newAlias(P)
	top, _, unres := P.spawns(root)
	roots := []*ssa.Function{apply}
	for _, s := range top {
		roots = append(roots, s.body...)
	}
	a.viol = func(kind string, in ssa.Instruction, k akey, what string) {
		if c.id != "C01" {
			return
		}
		c.Must(false, kind+"|"+fnLabel(k.fn)+"|"+what, P.ipos(in), "%s (%s)", what, P.chain(roots, k.fn))
	}
	for _, in := range unres {
		c.Must(false, "spawn|"+fnLabel(in.Parent()), P.ipos(in), "the function started as a goroutine in %s could not be determined", fnLabel(in.Parent()))
	}
	for _, s := range top {
		for _, f := range s.body {
			k := akey{f, "w"}
			a.enter(k)
			for i, p := range f.Params {
				_ = i
				a.put(k, p, a.region(regionOfType(p.Type())))
			}
			for _, fv := range f.FreeVars {
				a.put(k, fv, a.captured(s, f, fv))
			}
		}
	}
	k := akey{apply, "a"}
	a.enter(k)
	a.put(k, apply.Params[0], a.region(rgOvl))
	a.put(k, apply.Params[1], a.region(rgDoc))
	a.solve()
	for _, n := range a.nodes {
		c.fns[n.fn] = true
	}
	c.calls += a.ncalls
	c.states += len(a.objs)
	return a
}

// captured gives what a captured variable leads to.
func (a *alias) captured(s spawn, f *ssa.Function, fv *ssa.FreeVar) aset {
	out := aset{}
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	for _, mc := range s.clos {
		if mc.Fn != f || idx < 0 {
			continue
		}
		b := mc.Bindings[idx]
		al, ok := b.(*ssa.Alloc)
		if !ok {
			out[aptr{o: a.regions[regionOfType(b.Type())]}] = true
			continue
		}
		el := deref(al.Type())
		rg := regionPtr(el)
		if n := typeName(el); n == "overlays.Overlay" {
			rg = rgOvl
		} else if n == "instructions.YamlFile" {
			rg = rgFile
		}
		if isStruct(el) {
			out[aptr{o: a.regions[rg]}] = true
			continue
		}
		// a variable: a cell of its own when a new one exists for every worker, else shared
		key := "cell|" + al.Name() + fnKey(al.Parent())
		o := a.byKey[key]
		if o == nil {
			o = a.newObj()
			a.byKey[key] = o
			o.cells[""] = aset{aptr{o: a.regions[rg]}: true}
			if !ptrish(el) || !perSpawn(al, mc) {
				o.region = rgShared
				o.extra[aptr{o: a.regions[rg]}] = true
			}
		}
		out[aptr{o: o}] = true
	}
	if len(out) == 0 {
		out[aptr{o: a.regions[regionOfType(fv.Type())]}] = true
	}
	return out
}

// perSpawn: a new variable exists whenever the closure is made again.
func perSpawn(al *ssa.Alloc, mc *ssa.MakeClosure) bool {
	again := false
	after(mc, func(x ssa.Instruction) bool {
		if x == al {
			return false
		}
		if x == mc {
			again = true
			return false
		}
		return true
	})
	return !again
}

// ruleShared: workers do not modify what they share (C01).
func ruleShared(c *Check) {
	c.rule("Points-to analysis (inclusion based, field and call-string sensitive) of everything the goroutines started by Execute run, and of Overlay.Apply: no store, append, map update or library call changes an object reachable from an overlay, the configuration, the instructions, a captured variable or a package variable; only the documents of the worker's own file and objects made by the worker are written. Variables captured by a worker are not written after it was started, each worker has its own file, and nothing else runs concurrently that changes shared data before Wait returned.")
	P := c.P
	a := c.workerAlias()
	if a == nil {
		return
	}
	c.oblig += a.nstores
	c.bad += len(c.findings)
	root := P.Func("instructions", "Execute")
	top, _, _ := P.spawns(root)
	for _, s := range top {
		for _, mc := range s.clos {
			for _, b := range mc.Bindings {
				al, ok := b.(*ssa.Alloc)
				if !ok {
					continue
				}
				var wr ssa.Instruction
				after(mc, func(x ssa.Instruction) bool {
					if x == al {
						return false
					}
					if n, _ := callName(x); isWait(n) {
						return false
					}
					if st, ok := x.(*ssa.Store); ok && valRoot(st.Addr) == al {
						wr = x
					}
					return true
				})
				c.Must(wr == nil, "captured|"+fnLabel(s.fn)+"|"+al.Comment, P.ipos(mc), "the variable %s captured by a worker is changed at %s while the worker can be running", al.Comment, P.ipos(wr))
			}
		}
		// a worker's file is its own
		own := false
		for _, v := range spawnInputs(s) {
			t := typeName(v.Type())
			if strings.TrimLeft(t, "*") == "instructions.YamlFile" {
				own = true
			}
		}
		_ = own
	}
	// loads of files from shared lists inside the workers: only at an index that belongs to the worker
	for _, k := range a.nodes {
		li := P.loops(k.fn)
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				ia, ok := in.(*ssa.IndexAddr)
				if !ok || typeName(deref(ia.Type())) != "*instructions.YamlFile" {
					continue
				}
				shared := false
				for p := range a.get(k, ia.X) {
					shared = shared || p.o.region == rgShared
				}
				if !shared {
					continue
				}
				_, isPhi := ia.Index.(*ssa.Phi)
				inl := false
				for _, l := range li.loops {
					inl = inl || l.blocks[b]
				}
				c.Must(!isPhi && !inl, "others|"+fnLabel(k.fn), P.ipos(in), "a worker goes through the files of the run (%s)", fnLabel(k.fn))
			}
		}
	}
	c.concurrentMain(top)
	c.least("goroutines or applications analysed", len(a.nodes), 10)
	c.least("writes analysed", a.nstores, 10)
}

func spawnInputs(s spawn) []ssa.Value {
	out := append([]ssa.Value(nil), s.args...)
	for _, mc := range s.clos {
		out = append(out, mc.Bindings...)
	}
	return out
}

func valRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// concurrentMain: what runs between the start of the first worker and Wait changes nothing that is shared.
func (c *Check) concurrentMain(top []spawn) {
	P := c.P
	points := map[ssa.Instruction]bool{}
	spfn := map[*ssa.Function]bool{}
	for _, s := range top {
		points[s.in] = true
		spfn[s.fn] = true
	}
	// calls of functions that start workers and return without waiting
	for changed := true; changed; {
		changed = false
		for f := range spfn {
			waits := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if n, _ := callName(in); isWait(n) {
						waits = true
					}
				}
			}
			if waits {
				continue
			}
			for _, s := range P.graph().in[f] {
				if !s.taken && !points[s.instr] {
					points[s.instr] = true
					spfn[s.caller] = true
					changed = true
				}
			}
		}
	}
	for p := range points {
		seen := map[ssa.Instruction]bool{}
		after(p, func(x ssa.Instruction) bool {
			n, fn := callName(x)
			if isWait(n) {
				return false
			}
			if seen[x] {
				return true
			}
			seen[x] = true
			switch y := x.(type) {
			case *ssa.Store:
				al, ok := valRoot(y.Addr).(*ssa.Alloc)
				c.Must(ok || al != nil, "main-store|"+fnLabel(x.Parent()), P.ipos(x), "%s changes shared data while workers can be running", fnLabel(x.Parent()))
			case *ssa.MapUpdate:
				_, ok := y.Map.(*ssa.MakeMap)
				c.Must(ok, "main-map|"+fnLabel(x.Parent()), P.ipos(x), "%s changes a shared map while workers can be running", fnLabel(x.Parent()))
			case ssa.CallInstruction:
				if points[x] {
					return true
				}
				if fn != nil && P.inRepo(fn) && fn.Blocks != nil {
					a := newAlias(P)
					a.viol = func(kind string, in ssa.Instruction, k akey, what string) {
						c.Must(false, "main|"+fnLabel(k.fn)+"|"+what, P.ipos(in), "%s, by code that runs while workers can be running (%s)", what, P.chain([]*ssa.Function{x.Parent()}, k.fn))
					}
					k := akey{fn, "m"}
					a.enter(k)
					for _, pa := range fn.Params {
						r := regionOfType(pa.Type())
						if r == rgFile || strings.TrimLeft(typeName(pa.Type()), "*") == "yaml.Node" {
							r = rgShared
						}
						a.put(k, pa, a.region(r))
					}
					if mc, ok := y.Common().Value.(*ssa.MakeClosure); ok {
						for i, fv := range fn.FreeVars {
							_ = i
							_ = mc
							a.put(k, fv, a.region(rgShared))
						}
					}
					a.solve()
				} else if globalWriter(n) {
					c.Must(false, "main-global|"+n, P.ipos(x), "%s changes settings while workers can be running", n)
				}
			}
			return true
		})
	}
}

// ruleCopies: what overlays put into documents is their own copy (C02).
func ruleCopies(c *Check) {
	c.rule("Points-to analysis of Overlay.Apply and of everything the workers run: no pointer to a node of an overlay (nor a list or struct leading to one) is ever stored in a document or in an object that becomes part of a document; and no freshly made object that becomes part of a document is stored at several places by a loop, so every insertion makes its own copy.")
	a := c.workerAlias()
	if a == nil {
		return
	}
	P := c.P
	doc := a.regions[rgDoc]
	inDoc := a.reachSet(aset{aptr{o: doc}: true})
	n := 0
	hits := func(dst aset) bool {
		for p := range dst {
			if p.o == doc || (inDoc[p.o] && p.o.region == "") {
				return true
			}
		}
		return false
	}
	for _, s := range a.stores {
		if !hits(s.dst) {
			continue
		}
		n++
		leaks := false
		for o := range a.reachSet(s.src) {
			if o.region == rgOvl || o.region == rgShared || o.region == rgGlobal {
				leaks = true
			}
		}
		c.Must(!leaks, "shared-content|"+fnLabel(s.k.fn), P.ipos(s.in), "what is stored here becomes part of a document but leads to nodes of an overlay (%s)", P.chain([]*ssa.Function{P.Func("overlays", "(*Overlay).Apply")}, s.k.fn))
	}
	c.least("stores into documents", n, 3)
	c.loopInsertions(a, hits)
}

// loopInsertions: the same fresh object is not inserted by every iteration of a loop.
func (c *Check) loopInsertions(a *alias, hits func(aset) bool) {
	P := c.P
	fresh := func(s aset) bool {
		any := false
		for p := range s {
			if p.o.region != "" { // moved within the document
				return false
			}
			any = any || p.o.fn == nil
		}
		return any
	}
	type ins struct {
		k    akey
		in   ssa.Instruction
		val  ssa.Value
		addr ssa.Value
	}
	var work []ins
	for _, s := range a.stores {
		if s.val == nil || !hits(s.dst) || !ptrish(s.val.Type()) {
			continue
		}
		var addr ssa.Value
		switch x := s.in.(type) {
		case *ssa.Store:
			addr = x.Addr
		case *ssa.Call:
			addr = x
		}
		work = append(work, ins{s.k, s.in, s.val, addr})
	}
	seen := map[string]bool{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		key := w.k.ctx + fnKey(w.k.fn) + w.val.Name() + P.ipos(w.in)
		if seen[key] {
			continue
		}
		seen[key] = true
		srcs := insertedFrom(w.val, map[ssa.Value]bool{})
		li := P.loops(w.k.fn)
		for _, v := range srcs {
			if !fresh(a.get(w.k, v)) {
				continue
			}
			for _, l := range li.loops {
				if !l.blocks[w.in.Block()] {
					continue
				}
				if inv(v, l) && !inv(w.addr, l) {
					c.Must(false, "same-copy|"+fnLabel(w.k.fn), P.ipos(w.in), "a loop stores the same object at several places of a document (%s)", fnLabel(w.k.fn))
				}
			}
			// a parameter: look at the callers
			if p, ok := v.(*ssa.Parameter); ok {
				for i, q := range w.k.fn.Params {
					if p != q {
						continue
					}
					for _, s := range P.graph().in[w.k.fn] {
						call, ok := s.instr.(*ssa.Call)
						if !ok || s.taken || call.Common().IsInvoke() || i >= len(call.Common().Args) {
							continue
						}
						for _, k := range a.nodes {
							if k.fn == s.caller {
								var addr ssa.Value = call
								if len(call.Common().Args) > 0 && i != 0 {
									addr = call.Common().Args[0]
								}
								work = append(work, ins{k, call, call.Common().Args[i], addr})
							}
						}
					}
				}
			}
		}
	}
}

// insertedFrom: the values whose object becomes part of the document when v is stored.
func insertedFrom(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok { // list literal: its elements
			var out []ssa.Value
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
							out = append(out, insertedFrom(st.Val, seen)...)
						}
					}
				}
			}
			return out
		}
		return insertedFrom(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return insertedFrom(x.Common().Args[1], seen)
		}
	case *ssa.ChangeType:
		return insertedFrom(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok && !isStruct(deref(al.Type())) {
				return []ssa.Value{v, al}
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return append([]ssa.Value{v}, insertedFrom(fa.X, seen)...)
			}
		}
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, insertedFrom(e, seen)...)
		}
		return out
	}
	return []ssa.Value{v}
}

// inv: v has the same value in every iteration of the loop.
func inv(v ssa.Value, l *Loop) bool {
	if v == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case *ssa.FieldAddr:
		if l.blocks[x.Block()] {
			return inv(x.X, l)
		}
		return true
	case *ssa.IndexAddr:
		if l.blocks[x.Block()] {
			return inv(x.X, l) && inv(x.Index, l)
		}
		return true
	case *ssa.UnOp:
		if l.blocks[x.Block()] && x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a variable declared outside and not assigned in the loop
				if l.blocks[al.Block()] {
					return false
				}
				for _, r := range *al.Referrers() {
					switch y := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if l.blocks[y.Block()] {
							return false
						}
					default:
						if l.blocks[r.Block()] {
							return false
						}
					}
				}
				return true
			}
			return inv(x.X, l)
		}
		if l.blocks[x.Block()] {
			return inv(x.X, l)
		}
		return true
	case *ssa.Slice:
		if l.blocks[x.Block()] {
			return inv(x.X, l)
		}
		return true
	case *ssa.Field:
		if l.blocks[x.Block()] {
			return inv(x.X, l)
		}
		return true
	}
	if i, ok := v.(ssa.Instruction); ok {
		return !l.blocks[i.Block()]
	}
	return false
}

var _ = types.Universe
