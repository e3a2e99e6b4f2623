package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Empty entries of lists (C26): whatever is decoded is used only after its lists have been searched for empty entries.

// owed is a list whose entries have to be looked at after something was decoded.
type owed struct {
	path string
	list func(e *Engine, st *State) *Term
	elem types.Type // *T or T
	held bool       // the thing itself, not a list
}

func hasHook(t types.Type) bool {
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "UnmarshalYAML" {
			return true
		}
	}
	return false
}

// hidden: the pointers of a structure that only its own hook sets.
func hidden(t types.Type) []string {
	var out []string
	if s, ok := t.Underlying().(*types.Struct); ok && hasHook(t) {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && !s.Field(i).Exported() {
				out = append(out, s.Field(i).Name())
			}
		}
	}
	return out
}

// lists: the fields of a structure that hold lists which may have empty entries.
func (d *crash) listsOf(t types.Type) map[string]types.Type {
	out := map[string]types.Type{}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || hasHook(f.Type()) || strings.Contains(s.Tag(i), `yaml:"-`) {
			continue
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok && d.entryMatters(sl.Elem()) {
			out[f.Name()] = sl.Elem()
		}
	}
	return out
}

// entryMatters: an empty entry of this type is not a complete one.
func (d *crash) entryMatters(el types.Type) bool {
	if p, ok := el.Underlying().(*types.Pointer); ok {
		return d.c.P.inRepoType(p.Elem())
	}
	return d.c.P.inRepoType(el) && (len(hidden(el)) > 0 || !hasHook(el) && len(d.listsOf(el)) > 0)
}

// parts: what makes an entry of this type complete.
func (d *crash) parts(el types.Type) []string {
	var out []string
	t := el
	if p, ok := el.Underlying().(*types.Pointer); ok {
		out = append(out, "present")
		t = p.Elem()
	} else {
		for _, h := range hidden(t) {
			out = append(out, "set:"+h)
		}
	}
	if !hasHook(t) {
		for f := range d.listsOf(t) {
			out = append(out, "list:"+f)
		}
	}
	sort.Strings(out)
	return out
}

// holds: x has one of these parts.
func (d *crash) holds(e *Engine, st *State, x *Term, el types.Type, part string) bool {
	if part == "present" {
		return st.IsNot(Eq(x, Nil()))
	}
	t := el
	if p, ok := el.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	i := strings.Index(part, ":")
	var v *Term
	if t == el {
		v = FieldOf(x, part[i+1:], nil)
		if x.op == OLD && part[:i] == "set" && st.IsNot(Eq(e.Load(st, FA(x.args[0], part[i+1:]), nil), Nil())) {
			return true
		}
	} else {
		v = e.Load(st, FA(x, part[i+1:]), nil)
	}
	if part[:i] == "set" {
		return st.IsNot(Eq(v, Nil()))
	}
	return d.searched(st, e.list(st, v), d.listsOf(t)[part[i+1:]])
}

// searched: all entries of a list are known to be complete.
func (d *crash) searched(st *State, l *Term, el types.Type) bool {
	if st.emptyList(l) {
		return true
	}
	for _, p := range d.parts(el) {
		if st.all(p, l) == "" {
			return false
		}
	}
	return true
}

func (d *crash) entries() {
	c, P := d.c, d.c.P
	for _, f := range P.fns {
		if f.Synthetic != "" || f.Blocks == nil || P.unused(f) {
			continue
		}
		dec := false
		for _, s := range P.graph().out[f] {
			dec = dec || isDecode(s.ext)
		}
		if dec {
			d.decoded(f)
		}
	}
	c.least("decoded lists", d.n["owed"], 3)
	c.least("decoded entries", d.n["hidden"], 1)
}

func isDecode(name string) bool {
	switch name {
	case "yaml.Unmarshal", "(*yaml.Decoder).Decode", "(*yaml.Node).Decode":
		return true
	}
	return false
}

func (d *crash) decoded(f *ssa.Function) {
	c, P := d.c, d.c.P
	want := map[string]*owed{}
	r := &Rule{Name: "entries"}
	r.Stop = func(g *ssa.Function) bool { return !P.trivial(g) && !d.looksAt(g) }
	loads := map[*Term]types.Type{}
	lists := func(e *Engine, st *State) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		for _, fr := range st.frames {
			for v, t := range fr.env {
				if sl, ok := v.Type().Underlying().(*types.Slice); ok && d.entryMatters(sl.Elem()) {
					if l := e.list(st, t); !seen[l] {
						seen[l] = true
						loads[l] = sl.Elem()
						out = append(out, l)
					}
				}
			}
		}
		for _, o := range want {
			if !o.held {
				if l := o.list(e, st); !seen[l] {
					seen[l] = true
					loads[l] = o.elem
					out = append(out, l)
				}
			}
		}
		return out
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		byPart := map[string][]*Term{}
		for _, l := range lists(e, st) {
			for _, p := range d.parts(loads[l]) {
				byPart[p] = append(byPart[p], l)
			}
		}
		for p, ls := range byPart {
			st.forAll(ev, p, ls, func(l, idx, x *Term) bool {
				return d.holds(e, st, e.Load(st, EA(l, idx), nil), loads[l], p)
			})
		}
		switch ev.kind {
		case "back":
			st.clearIter(ev.iter)
		case "exit":
			for p, o := range want {
				if st.Get("owe:"+p) != "" && !o.held {
					l := o.list(e, st)
					if d.searched(st, l, o.elem) {
						st.Set("owe:"+p, "")
					}
				}
			}
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee != nil && P.inRepo(ev.callee) && P.noEffects(ev.callee, map[*ssa.Function]bool{}) {
			ev.noHavoc = true
		}
		if !isDecode(ev.name) || len(ev.args) < 2 || len(st.frames) != 1 {
			return
		}
		args := ev.common.Args
		v := unwrapIface(args[len(args)-1])
		to := deref(v.Type())
		base := unwrap(ev.args[len(ev.args)-1])
		own := ev.name == "(*yaml.Node).Decode" && f.Name() == "UnmarshalYAML" && len(f.Params) == 2 && ev.args[0] == Param(f.Params[1].Name(), f.Params[1].Type())
		owe := func(path string, o *owed) {
			if want[path] == nil {
				want[path] = o
				d.n["owed"]++
			}
			st.Set("owe:"+path, "1")
		}
		r.Roots = append(r.Roots, base)
		at := fnLabel(f)
		if hs := hidden(to); len(hs) > 0 && !own {
			d.n["hidden"]++
			for _, h := range hs {
				h := h
				owe(at+" "+h, &owed{path: h, held: true, list: func(e *Engine, st *State) *Term { return e.Load(st, FA(base, h), nil) }})
			}
		}
		if hasHook(to) {
			return
		}
		if sl, ok := to.Underlying().(*types.Slice); ok && d.entryMatters(sl.Elem()) {
			owe(at, &owed{path: "the list", elem: sl.Elem(), list: func(e *Engine, st *State) *Term { return e.list(st, e.Load(st, base, to)) }})
		}
		if d.c.P.inRepoType(to) {
			for n, el := range d.listsOf(to) {
				n := n
				owe(at+" "+n, &owed{path: n, elem: el, list: func(e *Engine, st *State) *Term { return e.list(st, e.Load(st, FA(base, n), nil)) }})
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(st.frames) != 1 {
			return
		}
		if n := len(res); n > 0 && isErrorType(f.Signature.Results().At(n-1).Type()) && st.IsNot(Eq(res[n-1], Nil())) {
			return
		}
		for p, o := range want {
			if st.Get("owe:"+p) == "" {
				continue
			}
			l := o.list(e, st)
			if o.held {
				c.must(e, st, in, st.IsNot(Eq(l, Nil())), "entry|"+p, "%s succeeds although what was decoded has no %s: it was empty, and its use crashes", fnLabel(f), o.path)
				continue
			}
			c.must(e, st, in, st.emptyList(l), "entry|"+p, "%s succeeds although %s was not searched for empty entries: their use crashes", fnLabel(f), o.path)
		}
	}
	c.explore(f, r, nil, nil)
}

// looksAt: the function looks at a list it is given and says whether it found something.
func (d *crash) looksAt(g *ssa.Function) bool {
	rs := g.Signature.Results()
	if rs.Len() == 0 || d.c.P.recursive(g) || !d.c.P.noEffects(g, map[*ssa.Function]bool{}) {
		return false
	}
	last := rs.At(rs.Len() - 1).Type()
	return isErrorType(last) || isBoolType(last) || rs.Len() == 1
}

// hooks: what a hook leaves behind when it succeeds.
func (d *crash) hooks() {
	c, P := d.c, d.c.P
	for _, f := range P.fns {
		if f.Name() != "UnmarshalYAML" || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		t := deref(f.Signature.Recv().Type())
		hs := hidden(t)
		if len(hs) == 0 {
			continue
		}
		self := Param(f.Params[0].Name(), f.Params[0].Type())
		r := &Rule{Name: "hook"}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			if len(st.frames) != 1 || st.IsNot(Eq(res[0], Nil())) {
				return
			}
			for _, h := range hs {
				x := e.Load(st, FA(self, h), nil)
				ok := st.IsNot(Eq(x, Nil())) || isPtrLike(x) && x.op == OAlloc
				// a library function returns a value when it returns no error
				if x.op == OExt && x.n == 0 {
					ok = ok || st.Is(Eq(Ext(x.args[0], 1), Nil()))
				}
				if x.op == OSite && x.n == 0 {
					ok = ok || st.Is(Eq(T.mk(Term{op: OSite, s: x.s, site: x.site, ctx: x.ctx, n: 1}), Nil()))
				}
				d.n["hook"]++
				c.must(e, st, in, ok, "hook|"+fnLabel(f)+"|"+h, "%s succeeds without a %s: its use crashes", fnLabel(f), h)
			}
		}
		c.explore(f, r, nil, nil)
	}
	c.least("hooks", d.n["hook"], 1)
}

// constantExpressions: expressions that have to compile do.
func (d *crash) constantExpressions() {
	c, P := d.c, d.c.P
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || calleeName(call.Call.StaticCallee()) != "regexp.MustCompile" {
					continue
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				valid := false
				if ok && k.Value != nil {
					s, isS := Const(k.Value).isStr()
					_, err := regexp.Compile(s)
					valid = isS && err == nil
				}
				c.Must(valid, "expression|"+fnLabel(f), P.ipos(in), "an expression that has to compile is not known to")
			}
		}
	}
}

// assertions: a value that is taken for one type is of that type.
func (d *crash) assertions() {
	c, P := d.c, d.c.P
	n := 0
	for _, f := range P.fns {
		if f.Synthetic != "" || P.unused(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.TypeAssert)
				if !ok || x.CommaOk {
					continue
				}
				n++
				is := map[string]bool{}
				d.kindsOf(x.X, false, is, map[ssa.Value]bool{}, map[ssa.Value]bool{})
				want := types.TypeString(x.AssertedType, short)
				good := len(is) > 0
				for t := range is {
					good = good && t == want
				}
				c.Must(good, "assert|"+fnLabel(f), P.ipos(in), "a value is taken for %s but may be something else", want)
			}
		}
	}
	c.least("assertions", n, 0)
}

// kindsOf collects the types of the values that v (or the elements of the list v) can hold.
func (d *crash) kindsOf(v ssa.Value, elems bool, out map[string]bool, seenV, seenE map[ssa.Value]bool) {
	seen := seenV
	if elems {
		seen = seenE
	}
	if seen[v] {
		return
	}
	seen[v] = true
	P := d.c.P
	again := func(v ssa.Value, elems bool) { d.kindsOf(v, elems, out, seenV, seenE) }
	// whatever is stored to elements of the list
	stored := func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					again(s.Val, false)
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		out[types.TypeString(x.X.Type(), short)] = true
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			again(e, elems)
		}
		if elems {
			stored(v)
		}
		return
	case *ssa.Slice:
		if elems {
			again(x.X, true)
			stored(v)
			return
		}
	case *ssa.Alloc:
		if elems {
			stored(v)
			return
		}
	case *ssa.MakeSlice:
		if elems {
			stored(v)
			return
		}
	case *ssa.Const:
		if x.Value == nil && elems {
			return
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && !elems {
			again(ia.X, true)
			return
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && elems {
			for _, a := range x.Call.Args {
				again(a, true)
			}
			stored(v)
			return
		}
		if g := x.Call.StaticCallee(); g != nil && P.inRepo(g) && g.Signature.Results().Len() == 1 {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					again(r.Results[0], elems)
				}
			}
			if elems {
				stored(v)
			}
			return
		}
	case *ssa.Parameter:
		f := x.Parent()
		in := P.graph().in[f]
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		ok := len(in) > 0 && k >= 0
		for _, s := range in {
			ci, isCall := s.instr.(ssa.CallInstruction)
			if s.taken || !isCall || ci.Common().IsInvoke() || k >= len(ci.Common().Args) {
				ok = false
				break
			}
			again(ci.Common().Args[k], elems)
		}
		if elems {
			stored(v)
		}
		if ok {
			return
		}
	}
	out["?"] = true
}
