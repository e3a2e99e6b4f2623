package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// crash decides C26.
type crash struct {
	c *Check
	n map[string]int
	// functions that are judged where they are called, because they rely on what they are given
	open map[*ssa.Function]bool
	// what functions need to be given (<= 0), which is judged where they are called
	pre map[*ssa.Function][]*Term
	// candidates for invariants at loop headers (<= 0)
	loopInv map[*Loop][]*Term
	dropped map[string]bool
	res     map[*ssa.Function]*judged
	lens    map[*ssa.Function]int64
}

// judged is what the last look at a function has shown.
type judged struct {
	e     *Engine
	n     int
	sites map[string]bool
	kinds map[string]int
}

type unproven struct {
	in   ssa.Instruction
	what string
	atom *Term  // <= 0
	inv  string // the invariant that is not kept
	// more is to be known about the caller
	inline bool
}

func ruleCrash(c *Check) {
	d := &crash{c: c, n: map[string]int{}, open: map[*ssa.Function]bool{}, loopInv: map[*Loop][]*Term{}, pre: map[*ssa.Function][]*Term{}, dropped: map[string]bool{}, res: map[*ssa.Function]*judged{}, lens: map[*ssa.Function]int64{}}
	P := c.P
	d.commandArgs()
	var roots []*ssa.Function
	for _, f := range P.fns {
		if f.Synthetic == "" && f.Blocks != nil && !P.unused(f) && !d.scans(f) && !comparesFor(f) {
			roots = append(roots, f)
		}
	}
	todo := map[*ssa.Function]bool{}
	for _, f := range roots {
		todo[f] = d.accesses(f)
		// lists that grow with every turn of a loop
		for _, l := range P.loops(f).loops {
			cx := T.Ctx(nil, nil, f)
			for _, ph := range phisOf(l, isSliceType) {
				d.loopInv[l] = append(d.loopInv[l], Add(iterOf(l, cx), LenOf(phiTerm(ph, cx)), -1))
			}
		}
	}
	done := false
	for round := 0; round < 15 && !done; round++ {
		changed := map[*ssa.Function]bool{}
		for _, f := range roots {
			if d.open[f] || !todo[f] {
				continue
			}
			us := d.bounds(f)
			for _, u := range us {
				switch {
				case u.inv != "":
					if !d.dropped[u.inv] {
						d.dropped[u.inv] = true
						changed[f] = true
					}
				case d.lift(f, u):
					changed[f] = true
				case u.atom != Int(1) && !u.inline && d.given(u.atom) && d.relies(f):
					have := false
					for _, x := range d.pre[f] {
						have = have || x == u.atom
					}
					if !have {
						d.pre[f] = append(d.pre[f], u.atom)
						changed[f] = true
						for _, s := range P.graph().in[f] {
							changed[s.instr.Parent()] = true
						}
					}
				case !changed[f] && d.relies(f):
					d.open[f] = true
				}
			}
			if d.open[f] {
				delete(changed, f)
				for _, s := range P.graph().in[f] {
					changed[s.instr.Parent()] = true
				}
			}
		}
		done = len(changed) == 0
		todo = changed
	}
	c.Must(done, "undecided", "-", "what holds in the loops of the program was not completely determined")
	var fs []string
	for _, f := range roots {
		if d.open[f] {
			fs = append(fs, fnLabel(f))
			continue
		}
		if r := d.res[f]; r != nil {
			c.collect(r.e, f)
			c.oblig += r.n
			for k := range r.sites {
				c.sites[k] = true
			}
			c.bad += len(r.e.findings)
			for k, n := range r.kinds {
				d.n[k] += n
			}
		}
	}
	sort.Strings(fs)
	if len(fs) > 0 {
		c.notes = append(c.notes, "judged where they are called: "+strings.Join(fs, ", "))
	}
	d.entries()
	d.hooks()
	d.constantExpressions()
	d.assertions()
	c.least("searches of documents", d.n["find"], 1)
	c.least("indents", d.n["indent"], 1)
	c.least("uses of elements", d.n["index"], 10)
	c.least("parts of lists", d.n["slice"], 5)
}

// accesses: the function, or one that is judged with it, uses elements or parts of lists.
func (d *crash) accesses(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.Panic, *ssa.MapUpdate, *ssa.FieldAddr, *ssa.MakeSlice:
					return true
				}
			}
		}
		for _, s := range d.c.P.graph().out[f] {
			switch s.ext {
			case "(*yamlpath.Path).Find", "(*yaml.Encoder).SetIndent", "strings.Repeat", "bytes.Repeat":
				return true
			}
			if s.callee != nil && d.open[s.callee] && visit(s.callee) {
				return true
			}
		}
		return false
	}
	return visit(f)
}

// scans: the function belongs to the scanner of paths, whose positions depend on the order of its calls.
func (d *crash) scans(f *ssa.Function) bool {
	for _, p := range f.Params {
		st, ok := deref(p.Type()).Underlying().(*types.Struct)
		if !ok || !d.c.P.inRepoType(deref(p.Type())) {
			continue
		}
		text, ch := false, false
		for i := 0; i < st.NumFields(); i++ {
			switch x := st.Field(i).Type().Underlying().(type) {
			case *types.Basic:
				text = text || x.Kind() == types.String
			case *types.Chan:
				ch = true
			}
		}
		if text && ch {
			return true
		}
	}
	return false
}

// commandArgs: the number of arguments a command insists on.
func (d *crash) commandArgs() {
	for _, f := range d.c.P.fns {
		set := map[ssa.Value]map[string]ssa.Value{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "cobra.Command" {
					continue
				}
				if set[fa.X] == nil {
					set[fa.X] = map[string]ssa.Value{}
				}
				set[fa.X][fieldName(deref(fa.X.Type()), fa.Field)] = st.Val
			}
		}
		for _, m := range set {
			call, ok := m["Args"].(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil {
				continue
			}
			k, ok := call.Call.Args[0].(*ssa.Const)
			if !ok {
				continue
			}
			n := k.Int64()
			switch call.Call.StaticCallee().Name() {
			case "ExactArgs", "ExactValidArgs":
			case "MinimumNArgs":
				n = -n
			default:
				continue
			}
			for _, k := range []string{"Run", "RunE", "PreRun", "PreRunE", "PostRun", "PostRunE"} {
				if m[k] == nil {
					continue
				}
				fns, _, _ := funcValues(d.c.P, m[k], map[ssa.Value]bool{})
				for _, g := range fns {
					d.lens[g] = n
					if g.Synthetic == "" {
						continue
					}
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							if x, ok := in.(ssa.CallInstruction); ok && x.Common().StaticCallee() != nil {
								d.lens[x.Common().StaticCallee()] = n
							}
						}
					}
				}
			}
		}
	}
}

// relies: a function may rely on its callers when all of them are known.
func (d *crash) relies(f *ssa.Function) bool {
	P := d.c.P
	in := P.graph().in[f]
	if len(in) == 0 || P.recursive(f) || d.open[f] {
		return false
	}
	for _, s := range in {
		if s.taken || s.instr == nil || s.instr.Parent() == nil || s.instr.Parent().Synthetic != "" {
			return false
		}
	}
	return true
}

// given: what is to be shown is about the numbers and the lengths of the lists and texts the function is given.
func (d *crash) given(t *Term) bool {
	at, _, _ := linear(t)
	for _, a := range at {
		if a.op == OLen || a.op == OCall && a.s == "strlen" {
			a = a.args[0]
		}
		if a.op != OParam {
			return false
		}
	}
	return len(at) > 0
}

// lift makes a candidate for a loop of what could not be shown.
func (d *crash) lift(f *ssa.Function, u unproven) bool {
	at, _, _ := linear(u.atom)
	var l *Loop
	// the innermost loop with a value carried around it
	for _, a := range at {
		a.any(func(x *Term) bool {
			if x.op == OPhi && x.site.Parent() == f || x.op == OIter {
				for _, m := range d.c.P.loops(f).loops {
					if (x == iterOf(m, x.ctx) || x.op == OPhi && m.header == x.site.Block()) && (l == nil || len(m.blocks) < len(l.blocks)) {
						l = m
					}
				}
			}
			return false
		})
	}
	if l == nil {
		return false
	}
	for _, a := range at {
		if a.hasGen(func(g *Term) bool {
			return inLoop(g, l, g.ctx) && !(g.op == OPhi && g.site.Block() == l.header) && g != iterOf(l, g.ctx)
		}) {
			return false
		}
	}
	if d.dropped[d.invKey(l, u.atom)] {
		return false
	}
	for _, x := range d.loopInv[l] {
		if x == u.atom {
			return false
		}
	}
	d.loopInv[l] = append(d.loopInv[l], u.atom)
	return true
}

func (d *crash) invKey(l *Loop, t *Term) string {
	return fmt.Sprintf("loop %s %d %s", fnLabel(l.fn), l.header.Index, t)
}

// bounds explores one function, and returns what could not be shown.
func (d *crash) bounds(f *ssa.Function) []unproven {
	c, P := d.c, d.c.P
	var out []unproven
	j := &judged{sites: map[string]bool{}, kinds: map[string]int{}}
	d.res[f] = j
	seen := map[string]bool{}
	mine := func(in ssa.Instruction) bool { return in.Parent() == f || d.open[in.Parent()] }
	more := func(e *Engine, st *State, t *Term) []*Term {
		var xs []*Term
		for l, invs := range d.loopInv {
			for _, x := range invs {
				if l.fn == f && !d.dropped[d.invKey(l, x)] {
					xs = append(xs, x)
					if y := d.current(e, st, x); y != x {
						xs = append(xs, y)
					}
				}
			}
		}
		xs = append(xs, d.pre[f]...)
		return append(xs, d.axioms(e, st, f, t)...)
	}
	need := func(e *Engine, st *State, in ssa.Instruction, t *Term, what, inv string) {
		ok := provesLe(e, st, t, more(e, st, t))
		if inv == "" {
			key := "bounds|" + fnLabel(in.Parent())
			j.n++
			j.sites[key+"@"+P.ipos(in)] = true
			if !ok {
				e.Violate(st, in, key+"|"+c.where(st, in), "%s", what)
			}
		}
		k := fmt.Sprintf("%p %s %s", in, t, inv)
		if !ok && !seen[k] {
			seen[k] = true
			out = append(out, unproven{in: in, what: what, atom: t, inv: inv, inline: strings.HasPrefix(what, "a document")})
		}
	}
	r := &Rule{Name: "crash", KeepPhis: true}
	r.Widen = func(l *Loop) bool { return l.fn == f }
	r.Stop = func(g *ssa.Function) bool { return !d.open[g] && !P.trivial(g) && !d.leaf(g) }
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee != nil && P.inRepo(ev.callee) && d.keepsLists(ev.callee, map[*ssa.Function]bool{}) {
			ev.noHavoc = true
		}
		if g := ev.callee; g != nil && mine(in(ev)) && len(g.Params) == len(ev.args) {
			for _, x := range d.pre[g] {
				t := rewrite(x, func(y *Term) *Term {
					for i, p := range g.Params {
						if y == Param(p.Name(), p.Type()) {
							if isSliceType(p.Type()) {
								return e.list(st, ev.args[i])
							}
							return ev.args[i]
						}
					}
					return nil
				})
				need(e, st, in(ev), t, fmt.Sprintf("%s is given something too short: it uses elements or parts that may not exist (%s)", fnLabel(g), x), "")
			}
		}
		if mine(in(ev)) {
			switch ev.name {
			case "(*yamlpath.Path).Find":
				j.kinds["find"]++
				d.needsContent(e, st, ev, need)
			case "strings.Repeat", "bytes.Repeat":
				need(e, st, in(ev), Add(Int(0), ev.args[1], -1), "something is repeated a negative number of times", "")
			case "(*yaml.Encoder).SetIndent":
				j.kinds["indent"]++
				need(e, st, in(ev), Add(Int(0), ev.args[1], -1), "the indent may be negative, which the encoder does not survive", "")
			}
		}
		for _, a := range ev.args {
			if a = unwrap(a); ev.name == "yaml.Unmarshal" || ev.name == "(*yaml.Decoder).Decode" {
				st.Set("decoded:"+ref(a), "1")
			} else if isPtrLike(a) && !ev.noHavoc && st.Get("decoded:"+ref(a)) != "" {
				st.Set("decoded:"+ref(a), "")
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.l.fn != f || len(st.frames) != 1 || ev.kind == "exit" {
			return
		}
		in := ev.l.header.Instrs[0]
		for _, inv := range d.loopInv[ev.l] {
			k := d.invKey(ev.l, inv)
			if d.dropped[k] {
				continue
			}
			t := rewrite(inv, func(x *Term) *Term {
				if x == ev.iter {
					if ev.kind == "enter" {
						return Int(0)
					}
					return AddN(x, 1)
				}
				if x.op == OPhi && x.site.Block() == ev.l.header {
					if v := edgeVal(e, st, x.site.(*ssa.Phi)); v != nil {
						if isSliceType(x.site.(*ssa.Phi).Type()) {
							return e.list(st, v)
						}
						return v
					}
				}
				return nil
			})
			need(e, st, in, d.current(e, st, t), "", k)
		}
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if !mine(in) {
			return
		}
		switch op {
		case "mapset":
			j.kinds["map"]++
			if st.Is(Eq(args[0], Nil())) {
				need(e, st, in, Int(1), "an entry of a map that was never made is set", "")
			}
		case "make":
			j.kinds["make"]++
			need(e, st, in, Add(Int(0), args[0], -1), "a list with a negative length is made", "")
		case "div":
			if !st.IsNot(EqInt(args[0], Int(0))) {
				need(e, st, in, AddN(Add(Int(0), args[0], -1), 1), "a number is divided by what may be zero", "")
			}
		case "deref", "load":
			x := args[0]
			if x.op == OAlloc || x.op == OGlobal || x.op == OFA || x.op == OEA || op == "load" && x.op == OME {
				break
			}
			j.kinds["deref"]++
			if st.Is(Eq(x, Nil())) || optional(e, st, x) && !st.IsNot(Eq(x, Nil())) {
				need(e, st, in, Int(1), fmt.Sprintf("%s is used although it may be missing", x), "")
			}
		case "index":
			b, i := args[0], args[1]
			n := LenOf(e.list(st, b))
			if isIndexOfString(in) {
				n = strlen(b)
			}
			j.kinds["index"]++
			what := fmt.Sprintf("element %s of %s is used, which may be outside of it", i, b)
			need(e, st, in, AddN(Add(i, n, -1), 1), what, "")
			need(e, st, in, Add(Int(0), i, -1), what, "")
		case "slice":
			j.kinds["slice"]++
			b, lo, hi := args[0], args[1], args[2]
			n := LenOf(e.list(st, b))
			if isString(in.(*ssa.Slice).X.Type()) {
				n = strlen(b)
			}
			lo, hi = orInt(lo, 0), orTerm(hi, n)
			what := fmt.Sprintf("the part from %s to %s of %s is used, which may be outside of it", lo, hi, b)
			need(e, st, in, Add(Int(0), lo, -1), what, "")
			need(e, st, in, Add(lo, hi, -1), what, "")
			need(e, st, in, Add(hi, n, -1), what, "")
		}
	}
	r.OnExit = func(e *Engine, st *State, kind string, in ssa.Instruction) {
		if kind == "panic" && in != nil && mine(in) {
			need(e, st, in, Int(1), "the tool gives up here", "")
		}
	}
	init := func(st *State) {
		if n := d.lens[f]; n != 0 {
			for _, p := range f.Params {
				if isSliceType(p.Type()) {
					l := LenOf(Param(p.Name(), p.Type()))
					if n < 0 {
						st.facts.Assume(Leq(Int(-n), l), true)
					} else {
						st.facts.Assume(EqInt(l, Int(n)), true)
					}
				}
			}
		}
	}
	j.e = NewEngine(P, r)
	j.e.Run(f, nil, nil, init)
	return out
}

// optional: a pointer that is often missing: an entry of a map, what an alias stands for.
func optional(e *Engine, st *State, x *Term) bool {
	switch {
	case x.op == OCall && x.s == "lookup":
		return !st.Is(T.mk(Term{op: OCall, s: "haskey", args: x.args}))
	case x.op == OLD && x.args[0].op == OFA && x.args[0].s == "Alias":
		return !st.Is(EqInt(e.Load(st, FA(x.args[0].args[0], "Kind"), nil), Int(kAlias)))
	}
	return false
}

func in(ev *CallEv) ssa.Instruction { return ev.instr }

// needsContent: a document without contents is not handed to the library.
func (d *crash) needsContent(e *Engine, st *State, ev *CallEv, need func(*Engine, *State, ssa.Instruction, *Term, string, string)) {
	n := unwrap(ev.args[1])
	if st.IsNot(EqInt(e.Load(st, FA(n, "Kind"), nil), Int(kDoc))) {
		return
	}
	l := LenOf(e.list(st, e.Load(st, FA(n, "Content"), nil)))
	need(e, st, ev.instr, AddN(Add(Int(0), l, -1), 1), "a document whose content may have been deleted is handed to "+ev.name+", which does not survive it", "")
}

// current: the invariant with the present values of what is carried around loops.
func (d *crash) current(e *Engine, st *State, t *Term) *Term {
	env := st.frames[0].env
	return rewrite(t, func(x *Term) *Term {
		if x.op != OPhi {
			return nil
		}
		ph, ok := x.site.(*ssa.Phi)
		if !ok {
			return nil
		}
		v, ok := env[ph]
		if !ok || v == x {
			return nil
		}
		if isSliceType(ph.Type()) {
			return e.list(st, v)
		}
		return v
	})
}

// leaf: a function that calls no other function of the program, and stores nothing but elements.
func (d *crash) leaf(f *ssa.Function) bool {
	if len(f.Blocks) > 12 || f.Blocks == nil {
		return false
	}
	for _, s := range d.c.P.graph().out[f] {
		if s.callee != nil && d.c.P.inRepo(s.callee) {
			return false
		}
	}
	// what it does matters for the lists it returns
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		b, basic := t.Underlying().(*types.Basic)
		if isSliceType(t) || basic && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return len(d.c.P.loops(f).loops) == 0
}

// keepsLists: a call changes nothing but texts and numbers.
func (d *crash) keepsLists(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, basic := x.Val.Type().Underlying().(*types.Basic); !basic && !localAddr(f, x.Addr) {
					return false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" || bi.Name() == "close" {
						return false
					}
					continue
				}
				g := x.Call.StaticCallee()
				if g == nil {
					return false
				}
				if d.c.P.inRepo(g) {
					if !d.keepsLists(g, seen) {
						return false
					}
					continue
				}
				for _, a := range x.Call.Args {
					t := deref(unwrapIface(a).Type())
					if s, ok := t.Underlying().(*types.Slice); ok {
						t = deref(s.Elem())
					}
					if typeName(t) == "yaml.Node" || d.c.P.inRepoType(t) {
						return false
					}
				}
			}
		}
	}
	return true
}

func unwrapIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// axioms: what holds beyond the facts of a state.
func (d *crash) axioms(e *Engine, st *State, f *ssa.Function, t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	at, _, _ := linear(t)
	for _, a := range at {
		a.any(func(x *Term) bool {
			if x.op == OIter && x.loop != nil && !seen[x] {
				seen[x] = true
				// a loop over a map takes as many turns as the map has entries
				for _, in := range x.loop.header.Instrs {
					if n, ok := in.(*ssa.Next); ok && !n.IsString {
						if m := e.val(st, n.Iter); m.op == OCall && m.s == "range" {
							out = append(out, AddN(Add(x, LenOf(m.args[0]), -1), 1))
						}
					}
				}
			}
			return false
		})
	}
	// the contents of nodes that are no list and no document are pairs
	for l := range st.facts.ints {
		as, _, _ := linear(l)
		at = append(at, as...)
	}
	for _, n := range at {
		if seen[n] || n.op != OLen || n.args[0].op != OLD || n.args[0].args[0].op != OFA || n.args[0].args[0].s != "Content" {
			continue
		}
		seen[n] = true
		x := n.args[0].args[0].args[0]
		k := e.Load(st, FA(x, "Kind"), nil)
		// a document that has just been decoded, and has contents at all, has one
		if st.Get("decoded:"+ref(x)) != "" && st.Is(EqInt(k, Int(kDoc))) && st.IsNot(Eq(n.args[0], Nil())) {
			out = append(out, AddN(Add(Int(0), n, -1), 1))
		}
		if !st.IsNot(EqInt(k, Int(kSeq))) || !st.IsNot(EqInt(k, Int(kDoc))) {
			continue
		}
		for _, i := range halves(st) {
			if i == n || !provesLe(e, st, AddN(Add(i, n, -1), 1), nil) || !provesLe(e, st, Add(Int(0), i, -1), nil) {
				continue
			}
			even := EqInt(Bin("%", i, Int(2)), Int(0))
			if st.Is(even) {
				out = append(out, AddN(Add(i, n, -1), 2))
			}
			if st.IsNot(even) {
				out = append(out, AddN(Add(Int(0), i, -1), 1))
			}
		}
	}
	return out
}

// halves: the numbers known to be even or odd.
func halves(st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		t.any(func(x *Term) bool {
			if y := x.args; len(y) > 0 && !seen[y[0]] && x == Bin("%", y[0], Int(2)) {
				seen[y[0]] = true
				out = append(out, y[0])
			}
			return false
		})
	}
	for t := range st.facts.ints {
		add(t)
	}
	for t := range st.facts.eqc {
		add(t)
	}
	for t := range st.facts.b {
		add(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// isIndexOfString: the instruction reads a byte of a text.
func isIndexOfString(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Index:
		return isString(x.X.Type())
	case *ssa.Lookup:
		return isString(x.X.Type())
	}
	return false
}

func (P *Program) inRepoType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "yaml-overlay-tool")
}

// comparesFor: the function compares the elements of a list for the sort package, which calls it with positions in the list.
func comparesFor(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, r := range *mc.Referrers() {
				call, ok := r.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(calleeName(call.Call.StaticCallee()), "sort.Slice") {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}
