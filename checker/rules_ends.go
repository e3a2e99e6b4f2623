package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ends decides C27.
type ends struct {
	c *Check
	n map[string]int
	// functions that search nodes for nodes that contain themselves; what recursive functions descend into
	searches map[*ssa.Function]bool
	follows  map[*ssa.Function]map[string]bool
}

func ruleEnds(c *Check) {
	d := &ends{c: c, n: map[string]int{}, searches: map[*ssa.Function]bool{}, follows: map[*ssa.Function]map[string]bool{}}
	c.rule("Loops: on every way around a loop a counter moves towards its bound (the bound grows at most by the files of a listed directory), an element is taken from a finite range, or something is read successfully; a way around that leaves everything the loop's exits depend on as it was never ends.")
	c.rule("Recursion: in every cycle of calls some argument is a strict part of what the caller was given (below Content, never behind an alias, whose target may contain it), or something new has been entered into a list of what was visited, or a lexeme other than the end has been taken from the lexer.")
	c.rule("Queues: a goroutine that closes a queue closes it exactly once before each of its ends and sends nothing after; a queue items are taken from until it is closed is closed somewhere; before a queue is shared with another goroutine no more is sent than it has room for, and it is only taken from when it is closed.")
	d.queues()
	c.rule("Reading a value from a node never decodes the same node into the same type again, and writing a value never writes the same value; a lock is given back before the function that took it ends.")
	d.decoding()
	c.least("nodes decoded by hooks", d.n["decode"], 1)
	d.locks()
	c.rule("Lexer: on no path does a state send more lexemes than the queue has room for, and no cycle of states leaves the position where it was.")
	d.lexer()
	d.loops()
	d.recursion()
	c.rule("Copies: the deep copy library follows aliases without looking where it has been, so it is only given nodes in which a search along aliases and contents has found nothing that contains itself.")
	d.copies()
	c.least("recursive calls", d.n["recursive"], 3)
	c.least("loops", d.n["loops"], 10)
}

// simpleBound: the loop ends at its header by comparing a counter that always moves the same way with something that
// does not change in the loop, or it ranges over a string, map or list.
func simpleBound(l *Loop) string {
	h := l.header
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return "range"
		}
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || (l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]]) {
		return ""
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return ""
	}
	op := cond.Op
	if !l.blocks[h.Succs[0]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ}[op]
	}
	try := func(x, y ssa.Value, up bool) bool {
		if i, ok := y.(ssa.Instruction); ok && l.blocks[i.Block()] {
			// the length of something from outside of the loop does not change
			ln, ok := y.(*ssa.Call)
			if !ok {
				return false
			}
			b, ok := ln.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			if i, ok := ln.Call.Args[0].(ssa.Instruction); ok && l.blocks[i.Block()] {
				return false
			}
		}
		ph := phiUnder(x)
		if ph == nil || ph.Block() != h {
			return false
		}
		for i, p := range h.Preds {
			if !l.blocks[p] {
				continue
			}
			k, ok := stepOf(ph.Edges[i], ph)
			if !ok || k == 0 || (k > 0) != up {
				return false
			}
		}
		return true
	}
	switch op {
	case token.LSS, token.LEQ:
		if try(cond.X, cond.Y, true) || try(cond.Y, cond.X, false) {
			return "counter"
		}
	case token.GTR, token.GEQ:
		if try(cond.X, cond.Y, false) || try(cond.Y, cond.X, true) {
			return "counter"
		}
	}
	return ""
}

func phiUnder(v ssa.Value) *ssa.Phi {
	switch x := v.(type) {
	case *ssa.Phi:
		return x
	case *ssa.BinOp:
		if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
			return phiUnder(x.X)
		}
	case *ssa.Convert:
		return phiUnder(x.X)
	}
	return nil
}

func (d *ends) loops() {
	c, P := d.c, d.c.P
	for _, f := range P.fns {
		if f.Synthetic != "" || len(P.loops(f).loops) == 0 {
			continue
		}
		hard := map[*Loop]bool{}
		for _, l := range P.loops(f).loops {
			d.n["loops"]++
			k := simpleBound(l)
			pos := P.ipos(l.header.Instrs[0])
			if k != "" {
				c.Must(true, fmt.Sprintf("loop|%s|%s", fnLabel(f), k), pos, "")
				continue
			}
			hard[l] = true
		}
		if len(hard) > 0 {
			d.hardLoops(f, hard)
		}
	}
}

// rewrite rebuilds a term with some of its parts replaced.
func rewrite(t *Term, f func(t *Term) *Term) *Term {
	if t == nil {
		return nil
	}
	if n := f(t); n != nil {
		return n
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = rewrite(a, f)
		ch = ch || na[i] != a
	}
	if !ch {
		return t
	}
	switch t.op {
	case OAff:
		r := Int(t.n)
		for i, a := range na {
			r = Add(r, a, t.cf[i])
		}
		return r
	case OLen:
		return LenOf(na[0])
	case OLe:
		return Le0(na[0])
	case ONot:
		return Not(na[0])
	case OEq:
		return Eq(na[0], na[1])
	}
	n := *t
	n.args = na
	n.gen = nil
	return T.mk(n)
}

func (d *ends) hardLoops(f *ssa.Function, hard map[*Loop]bool) {
	c, P := d.c, d.c.P
	key := func(l *Loop) string { return fmt.Sprintf("%d", l.header.Index) }
	loopy := map[*ssa.Function]bool{}
	r := &Rule{Name: "ends", KeepPhis: true}
	r.Widen = func(l *Loop) bool { return l.fn == f }
	r.Stop = func(g *ssa.Function) bool {
		v, ok := loopy[g]
		if !ok {
			for h := range P.reach(g) {
				v = v || P.inRepo(h) && len(P.loops(h).loops) > 0
			}
			if r := g.Signature.Results(); v && r.Len() == 1 && isBoolType(r.At(0).Type()) && len(P.loops(g).loops) == 1 && len(P.reach(g)) == 1 && P.noEffects(g, map[*ssa.Function]bool{}) {
				v = false // a search in a list
			}
			v = v || P.recursive(g)
			loopy[g] = v
		}
		return v
	}
	exits := func(l *Loop, in ssa.Instruction) bool {
		b := in.Block()
		if b.Parent() != f || !l.blocks[b] {
			return false
		}
		for _, s := range b.Succs {
			if !l.blocks[s] {
				return true
			}
		}
		return false
	}
	inner := func(l *Loop, b *ssa.BasicBlock) bool {
		for _, m := range P.loops(f).loops {
			if m != l && m.blocks[b] && l.blocks[m.header] && len(m.blocks) < len(l.blocks) {
				return true
			}
		}
		return false
	}
	// the questions asked since the loop was last at its start: those it can be left at, and the others
	r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
		for l := range hard {
			kind := ""
			switch {
			case len(st.frames) != 1:
				if st.frames[0].loops[l] != nil {
					kind = "soft"
				}
			case exits(l, in):
				kind = "exit"
			case l.blocks[in.Block()] && !inner(l, in.Block()):
				kind = "soft"
			}
			if kind != "" && st.Get(fmt.Sprintf("keep:ask:%s:%s", key(l), ref(atom))) == "" {
				read := "-"
				if kind == "exit" && givesUp(l, in.Block()) {
					kind = "fail"
				}
				if kind == "exit" && readsMemory(l, in.(*ssa.If).Cond, map[ssa.Value]bool{}) {
					read = "memory"
				}
				st.Set(fmt.Sprintf("keep:ask:%s:%s", key(l), ref(atom)), fmt.Sprintf("%s %v %s %s ", kind, val, ref(atom), read))
			}
		}
	}
	mark := func(st *State, what string) {
		for l := range hard {
			if st.frames[0].loops[l] != nil {
				st.Set("keep:did:"+key(l), what)
			}
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		sig := ev.common.Signature()
		if ev.callee != nil && P.inRepo(ev.callee) {
			if r.Stop(ev.callee) && !P.noEffects(ev.callee, map[*ssa.Function]bool{}) {
				// a function that says whether it did anything
				if res := sig.Results(); res.Len() == 1 && isBoolType(res.At(0).Type()) {
					ev.handled = true
					ev.results = e.freshResults(st, ev.instr, ev.name, 1)
					for _, a := range ev.args {
						if isPtrLike(unwrap(a)) {
							e.Havoc(st, unwrap(a), ev.instr, "call")
						}
					}
					for l := range hard {
						if st.frames[0].loops[l] != nil {
							st.Set("keep:bool:"+key(l)+":"+ref(ev.results[0]), ref(ev.results[0])+" ")
						}
					}
					return
				}
				mark(st, "call")
			}
			return
		}
		if _, ok := ev.common.Value.(*ssa.Builtin); ok {
			return
		}
		if ev.callee == nil && !ev.common.IsInvoke() {
			mark(st, "call")
			return
		}
		if !isReading(ev.name) {
			if !pureLib(ev.name) && !readOnlyLib(ev.name) && !strings.Contains(ev.name, "logging") && !strings.HasPrefix(ev.name, "fmt.") {
				mark(st, "call")
			}
			return
		}
		i := lastError(sig)
		if i < 0 {
			mark(st, "read")
			return
		}
		ev.handled = true
		ev.results = e.freshResults(st, ev.instr, ev.name, sig.Results().Len())
		for l := range hard {
			if st.frames[0].loops[l] != nil {
				st.Set("keep:read:"+key(l), ref(ev.results[i])+" ")
			}
		}
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if op == "recv" {
			mark(st, "recv")
		}
	}
	r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
		if old == nil || !isSliceType(ph.Type()) || l.fn != f || hard[l] {
			return
		}
		a, b := e.list(st, old), e.list(st, nw)
		if _, ok := tail(a, b); ok {
			pt := phiTerm(ph, st.top().ctx)
			if a.op == OPhi && a.site == ssa.Instruction(ph) {
				return
			}
			st.Set("keep:ext:"+ref(pt), ref(a)+" ")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if len(st.frames) != 1 || !hard[ev.l] {
			return
		}
		k := key(ev.l)
		if ev.kind == "back" {
			d.back(e, st, ev, k)
		}
		if ev.kind != "exit" || true {
			for x := range st.kv {
				if strings.HasPrefix(x, "keep:ask:"+k+":") || strings.HasPrefix(x, "keep:bool:"+k+":") || x == "keep:did:"+k || x == "keep:read:"+k {
					delete(st.kv, x)
				}
			}
		}
	}
	c.explore(f, r, nil, nil)
}

// givesUp: the loop is left here only to return an error.
func givesUp(l *Loop, b *ssa.BasicBlock) bool {
	i := lastError(l.fn.Signature)
	if i < 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad func(b *ssa.BasicBlock) bool
	bad = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			k, ok := r.Results[i].(*ssa.Const)
			return !ok || !k.IsNil()
		}
		for _, s := range b.Succs {
			if !bad(s) {
				return false
			}
		}
		return true
	}
	for _, s := range b.Succs {
		if !l.blocks[s] && !bad(s) {
			return false
		}
	}
	return true
}

// readsMemory: the value depends on something that is read from memory, or asked of a function, in the loop.
func readsMemory(l *Loop, v ssa.Value, seen map[ssa.Value]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !l.blocks[in.Block()] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL || x.Op == token.ARROW {
			return true
		}
	case *ssa.Lookup, *ssa.Next:
		return true
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
			return true
		}
		if b := x.Call.Value.(*ssa.Builtin); b.Name() == "append" {
			// only the length matters
			for _, a := range x.Call.Args {
				if readsMemory(l, a, seen) {
					return true
				}
			}
			return false
		}
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && readsMemory(l, *o, seen) {
			return true
		}
	}
	return false
}

// isReading: the call takes something from a source that has an end.
func isReading(name string) bool {
	i := strings.LastIndex(name, ".")
	switch n := name[i+1:]; {
	case strings.HasPrefix(n, "Read"), strings.HasPrefix(n, "Decode") && strings.Contains(name, "Decoder"), strings.HasPrefix(n, "Scan"), n == "Token", n == "Next":
		return true
	}
	return false
}

func (d *ends) back(e *Engine, st *State, ev LoopEv, k string) {
	if st.Is(EqInt(ev.iter, Int(0))) {
		return // the general case follows
	}
	f := st.top()
	in := f.block.Instrs[len(f.block.Instrs)-1]
	l := ev.l
	gen := func(g *Term) bool {
		return inLoop(g, l, f.ctx) && !(g.op == OPhi && g.site.Block() == l.header) && g != ev.iter
	}
	phi := map[*Term]*Term{}
	for _, x := range l.header.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		phi[phiTerm(ph, f.ctx)] = edgeVal(e, st, ph)
	}
	general := true
	if ls := f.loops[l]; ls != nil {
		for a, v := range ls.mem {
			w, ok := st.mem[a]
			switch {
			case !ok || w == v:
			case v.op == OPhi:
				phi[v] = w
			case st.rootFresh(a) == nil && len(v.args) > 0:
				general = false // the general case follows
			}
		}
	}
	var next func(t *Term) *Term
	next = func(t *Term) *Term {
		return rewrite(t, func(x *Term) *Term {
			if n := phi[x]; n != nil {
				if x.typ != nil && isSliceType(x.typ) || n.op == OAlloc || n.op == OSlice {
					return e.list(st, n)
				}
				return n
			}
			switch {
			case x == ev.iter:
				return AddN(ev.iter, 1)
			case x.op == OLD:
				a := next(x.args[0])
				if v, ok := st.mem[a]; ok {
					return v
				}
				if a != x.args[0] {
					return LD(a, 0)
				}
				return x
			}
			return nil
		})
	}
	rd := unref(st.Get("keep:read:" + k))
	if !general && rd == nil {
		return
	}
	var moved, stuck, other, soft []string
	memory := false
	for _, key := range sortedKV(st.kv) {
		if !strings.HasPrefix(key, "keep:ask:"+k+":") {
			continue
		}
		v := strings.Fields(st.kv[key])
		atom := unref(v[2])
		if atom == nil {
			continue
		}
		if d.member(e, st, atom, v[1] == "true") {
			return
		}
		if atom.op == OLe {
			m := atom.args[0]
			if v[1] == "true" {
				m = Add(Int(0), m, -1)
			}
			dl := Add(next(m), m, -1)
			if up := d.atLeast(e, st, dl); up >= 0 && v[0] == "exit" {
				stuck = append(stuck, atom.String())
				memory = memory || v[3] == "memory" && atom.any(func(t *Term) bool { return t.op == OLD })
			} else if d.atMost(st, dl) < 0 && v[0] != "soft" {
				moved = append(moved, atom.String())
			} else if x, ok := dl.isInt(); !ok || x != 0 {
				soft = append(soft, fmt.Sprintf("%s: changes by %s", atom, dl))
			}
			continue
		}
		n := next(atom)
		switch {
		case n == atom && !atom.hasGen(gen):
			if v[0] == "exit" {
				stuck = append(stuck, atom.String())
				memory = memory || v[3] == "memory" && atom.any(func(t *Term) bool { return t.op == OLD })
			}
		case v[0] == "exit":
			other = append(other, fmt.Sprintf("%s -> %s", atom, n))
		default:
			soft = append(soft, fmt.Sprintf("%s -> %s", atom, n))
		}
	}
	c := d.c
	name := "loop|" + fnLabel(f.fn)
	if len(moved) > 0 {
		c.must(e, st, in, true, name, "")
		d.n["counted"]++
		return
	}
	if rd != nil {
		d.n["reading"]++
		c.must(e, st, in, st.Is(Eq(rd, Nil())), name+"|read", "the loop goes on reading after reading failed")
		return
	}
	did := st.Get("keep:did:"+k) != ""
	for _, b := range st.listed("keep:bool:" + k + ":") {
		did = did || !st.IsNot(b)
	}
	changed := false
	for pt, v := range phi {
		changed = changed || v != nil && v != pt && !v.isConst()
	}
	if ls := f.loops[l]; ls != nil {
		for a, v := range ls.mem {
			w, ok := st.mem[a]
			changed = changed || !ok || w != v && !w.isConst()
		}
		for a, w := range st.mem {
			if _, ok := ls.mem[a]; !ok && !w.isConst() && w != LD(a, 0) && st.rootFresh(a) == nil {
				changed = true
			}
		}
	}
	counters := false
	for _, s := range stuck {
		counters = counters || strings.Contains(s, "<=")
	}
	counters = counters && len(other) == 0 && !memory
	switch {
	case counters:
		c.must(e, st, in, false, name+"|stuck", "a way around the loop does not come closer to its end (%s)", strings.Join(stuck, ", "))
	case !did && !changed:
		c.must(e, st, in, false, name+"|same", "a way around the loop changes nothing, so it is repeated for ever")
	default:
		d.n["other"]++
		c.must(e, st, in, true, name, "")
	}
}

// member: the answer says that a character is not in a list that is known to contain it.
func (d *ends) member(e *Engine, st *State, atom *Term, val bool) bool {
	if val || (atom.op != OEq) {
		return false
	}
	for i := range atom.args[:2] {
		el, x := atom.args[i], atom.args[1-i]
		if el.op != OLD || el.args[0].op != OEA {
			continue
		}
		for _, p := range parts(e.list(st, el.args[0].args[0])) {
			if p.op == OElems {
				for _, y := range p.args {
					if st.Is(norm(Eq(x, y))) {
						return true
					}
				}
			}
		}
	}
	return false
}

// atLeast: a lower bound of a difference of lengths and numbers; atMost: an upper bound.
func (d *ends) atLeast(e *Engine, st *State, t *Term) int64 {
	t = rewrite(t, func(x *Term) *Term {
		if x.op == OLen && x.args[0].op == OPhi {
			if b := unref(st.Get("keep:ext:" + ref(x.args[0]))); b != nil {
				return LenOf(b)
			}
		}
		return nil
	})
	lo, _ := st.facts.bounds(t)
	return lo
}

func (d *ends) atMost(st *State, t *Term) int64 {
	t = rewrite(t, func(x *Term) *Term {
		if x.op == OExt || x.op == OCall {
			if strings.Contains(x.String(), "utf8.DecodeRune") && strings.HasPrefix(x.String(), "ext1(") {
				return Int(1)
			}
		}
		return nil
	})
	_, hi := st.facts.bounds(t)
	return hi
}

func sortedKV(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = types.Typ

// relation of what is handed to a call with what the caller was given.
type edge struct {
	from, to *ssa.Function
	rel      [][]string // parameter of the caller x parameter of the callee
	in       ssa.Instruction
	consumed bool
	visited  bool // the caller has entered something new into a list of what was visited, which is handed on
}

const (
	rStrict = "smaller"
	rSame   = "same"
	rAlias  = "alias"
	rUnk    = "unknown"
)

// descends tells how a term is derived from p.
func (d *ends) descends(e *Engine, st *State, t, p *Term, depth int) string {
	if t == nil || depth > 12 {
		return rUnk
	}
	t = unwrap(t)
	if t == p {
		return rSame
	}
	worse := func(a, b string) string {
		for _, k := range []string{rUnk, rAlias, rSame} {
			if a == k || b == k {
				return k
			}
		}
		return rStrict
	}
	all := func(ts []*Term) string {
		r := rStrict
		for _, x := range ts {
			r = worse(r, d.descends(e, st, x, p, depth+1))
		}
		return r
	}
	switch t.op {
	case OElems:
		return all(t.args)
	case OCat:
		return all(t.args)
	case OSlice:
		r := d.descends(e, st, t.args[0], p, depth+1)
		if lo := t.args[1]; r == rSame && lo != nil {
			if k, ok := lo.isInt(); ok && k >= 1 {
				return rStrict
			}
		}
		return r
	case OAlloc:
		if l := e.list(st, t); l != t {
			return d.descends(e, st, l, p, depth+1)
		}
	case OLD, OField:
		a := t.args[0]
		field := ""
		if t.op == OField {
			field = t.s
		}
		for a != nil && (a.op == OFA || a.op == OEA) {
			if a.op == OFA && field == "" {
				field = a.s
			}
			a = a.args[0]
		}
		r := d.descends(e, st, a, p, depth+1)
		switch {
		case r != rSame && r != rStrict:
			return r
		case field == "Content":
			return rStrict
		case field == "Alias":
			return rAlias
		case field != "" && typeName(deref(p.typ)) != "*yaml.Node":
			return rStrict // a part of a structure that was decoded is finite
		}
		return r
	case OAff:
		if len(t.args) == 1 && t.args[0] == p && t.cf[0] == 1 {
			if t.n < 0 {
				return rStrict
			}
			return rUnk
		}
	case OCall:
		if t.s == "substr" && t.args[0] == p {
			if k, ok := t.args[1].isInt(); ok && k >= 1 {
				return rStrict
			}
		}
	}
	return rUnk
}

func (d *ends) recursion() {
	c, P := d.c, d.c.P
	done := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		if done[f] || f.Synthetic != "" || !P.recursive(f) {
			continue
		}
		scc := map[*ssa.Function]bool{f: true}
		for g := range P.reach(f) {
			if P.reaches(g, f) {
				scc[g] = true
			}
		}
		var edges []edge
		reads := 0
		direct := false
		for g := range scc {
			for _, s := range P.graph().out[g] {
				direct = direct || scc[s.callee] && !s.taken
			}
		}
		if !direct {
			for g := range scc {
				done[g] = true
			}
			continue
		}
		for _, g := range sortedFns(scc) {
			done[g] = true
			edges = append(edges, d.edges(g, scc, &reads)...)
		}
		if len(edges) == 0 {
			continue
		}
		d.n["recursive"] += len(edges)
		d.judge(sortedFns(scc), edges)
	}
	_ = c
}

func (d *ends) edges(g *ssa.Function, scc map[*ssa.Function]bool, reads *int) []edge {
	c, P := d.c, d.c.P
	var out []edge
	r := &Rule{Name: "recursion"}
	r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
		x := atom
		if x.op == OEq && (x.args[0].isNil() || x.args[1].isNil()) {
			val = !val
			if x = x.args[0]; x.isNil() {
				x = atom.args[1]
			}
		}
		if x.op == OCall && (x.s == "haskey" || x.s == "lookup") && !val {
			st.Set("keep:absent:"+ref(x.args[0])+":"+ref(x.args[1]), x.s+" "+ref(x.args[0])+" "+ref(x.args[1])+" ")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		if addr.op != OME {
			return
		}
		k := "keep:absent:" + ref(addr.args[0]) + ":" + ref(addr.args[1])
		a := strings.Fields(st.Get(k))
		if len(a) == 0 || a[0] == "lookup" && (!v.isConst() || v.isNil() || v == Bool(false)) {
			return
		}
		st.Set("keep:visited:"+ref(addr.args[0]), ref(addr.args[0])+" ")
	}
	r.Stop = func(h *ssa.Function) bool {
		small := len(h.Blocks) <= 3 && len(P.loops(h).loops) == 0
		return scc[h] || !small || h.Signature.Results().Len() == 1 && isLexeme(h.Signature.Results().At(0).Type())
	}
	eof, _ := P.constOf("builder", "lexemeEOF")
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == nil {
			return
		}
		if rs := ev.callee.Signature.Results(); rs.Len() == 1 && isLexeme(rs.At(0).Type()) {
			*reads++
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 1)
			st.Set("keep:lexeme", ref(ev.results[0])+" ")
			return
		}
		if !scc[ev.callee] || !P.inRepo(ev.callee) {
			return
		}
		ed := edge{from: g, to: ev.callee, in: ev.instr}
		for _, p := range g.Params {
			var row []string
			pt := Param(p.Name(), p.Type())
			for i := range ev.callee.Params {
				if i >= len(ev.args) {
					row = append(row, rUnk)
					continue
				}
				row = append(row, d.descends(e, st, e.list(st, ev.args[i]), pt, 0))
			}
			ed.rel = append(ed.rel, row)
		}
		for i, p := range g.Params {
			m := Param(p.Name(), p.Type())
			if st.Get("keep:visited:"+ref(m)) == "" || d.takesBack(scc, p.Type()) {
				continue
			}
			for _, r := range ed.rel[i] {
				ed.visited = ed.visited || r == rSame
			}
		}
		if lx := unref(st.Get("keep:lexeme")); lx != nil {
			ed.consumed = st.IsNot(EqInt(FieldOf(lx, "typ", types.Typ[types.Int]), Int(eof)))
			st.Set("keep:lexeme", "")
		}
		out = append(out, ed)
		for i := range ev.args {
			for _, row := range ed.rel {
				for h := range scc {
					if d.follows[h] == nil {
						d.follows[h] = map[string]bool{}
					}
					switch {
					case row[i] == rStrict:
						d.follows[h]["Content"] = true
					case row[i] == rAlias:
						d.follows[h]["Alias"] = true
					}
				}
			}
		}
	}
	c.explore(g, r, nil, nil)
	return out
}

// takesBack: entries may be taken out of such a map, or what its keys point to is made on the way.
func (d *ends) takesBack(scc map[*ssa.Function]bool, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return true
	}
	for f := range scc {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if types.Identical(x.Type(), m.Key()) {
						return true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						return true
					}
				}
			}
		}
	}
	return false
}

// copies: nodes are only copied when they are known not to contain themselves.
func (d *ends) copies() {
	c, P := d.c, d.c.P
	roots := map[*ssa.Function]bool{}
	var climb func(f *ssa.Function, seen map[*ssa.Function]bool)
	climb = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		own := len(P.graph().in[f]) == 0 || P.recursive(f) || f.Object() != nil && f.Object().Exported()
		for _, s := range P.graph().out[f] {
			own = own || s.callee != nil && P.inspects(s.callee)
		}
		for _, s := range P.graph().in[f] {
			own = own || s.taken || s.caller == nil || s.caller.Synthetic != ""
		}
		if own {
			roots[f] = true
			return
		}
		for _, s := range P.graph().in[f] {
			climb(s.caller, seen)
		}
	}
	for _, f := range P.fns {
		calls := false
		for _, s := range P.graph().out[f] {
			calls = calls || s.ext == "reprint.FromTo"
		}
		if calls && f.Synthetic == "" {
			climb(f, map[*ssa.Function]bool{})
		}
	}
	for _, f := range sortedFns(roots) {
		r := &Rule{Name: "copies"}
		r.Stop = func(h *ssa.Function) bool { return !P.inspects(h) && P.recursive(h) }
		var lists []*Term
		for _, p := range f.Params {
			if isSliceType(p.Type()) {
				lists = append(lists, Param(p.Name(), p.Type()))
			}
		}
		r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
			st.forAll(ev, "accepted", lists, func(l, idx, x *Term) bool { return st.accepted(x) })
			if ev.kind == "back" {
				st.clearIter(ev.iter)
			}
		}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			if ev.repo && P.inspects(ev.callee) {
				d.searches[ev.callee] = true
			}
			if ev.name != "reprint.FromTo" {
				return
			}
			d.n["copy"]++
			from := unwrap(ev.args[0])
			ok := st.acceptedPart(from) || st.accepted(e.list(st, from))
			if from.op == OAlloc {
				x := e.Load(st, from, nil)
				v := e.list(st, x)
				ok = ok || st.acceptedPart(x) || st.accepted(v) || st.all("accepted", v) != ""
				if v.op == OElems {
					all := true
					for _, x := range v.args {
						all = all && st.acceptedPart(x)
					}
					ok = ok || all
				}
			}
			c.must(e, st, ev.instr, ok, "copy|"+fnLabel(f), "%v is copied, but it is not known whether it contains itself: the copy may never be complete", from)
		}
		c.explore(f, r, nil, nil)
	}
	c.least("copies", d.n["copy"], 1)
	for _, f := range sortedFns(d.searches) {
		c.Must(d.follows[f]["Content"], "search|"+fnLabel(f)+"|Content", P.pos(f.Pos()), "the search for nodes that contain themselves does not look into the contents of nodes")
		c.Must(d.follows[f]["Alias"], "search|"+fnLabel(f)+"|Alias", P.pos(f.Pos()), "the search for nodes that contain themselves does not follow aliases")
	}
}

// judge: there is a parameter of each function such that every cycle of calls makes it smaller.
func (d *ends) judge(fns []*ssa.Function, edges []edge) {
	c, P := d.c, d.c.P
	type choice map[*ssa.Function]int
	bad := func(ch choice, lenient bool) *edge {
		adj := map[*ssa.Function][]*edge{}
		for i := range edges {
			ed := &edges[i]
			r := rUnk
			if a, b := ch[ed.from], ch[ed.to]; a < len(ed.rel) && b < len(ed.rel[a]) {
				r = ed.rel[a][b]
			}
			if ed.consumed || ed.visited || r == rStrict || r == rUnk && lenient {
				continue
			}
			adj[ed.from] = append(adj[ed.from], ed)
		}
		state := map[*ssa.Function]int{}
		var cyc *edge
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			state[f] = 1
			for _, ed := range adj[f] {
				if state[ed.to] == 1 && cyc == nil {
					cyc = ed
				}
				if state[ed.to] == 0 {
					visit(ed.to)
				}
			}
			state[f] = 2
		}
		for _, f := range fns {
			if state[f] == 0 {
				visit(f)
			}
		}
		return cyc
	}
	var first *edge
	try := func(lenient bool) bool {
		ch := choice{}
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(fns) {
				b := bad(ch, lenient)
				if b != nil && first == nil {
					first = b
				}
				return b == nil
			}
			for k := 0; k < len(fns[i].Params) || k == 0; k++ {
				ch[fns[i]] = k
				if rec(i + 1) {
					return true
				}
			}
			return false
		}
		return rec(0)
	}
	key := "recursion|" + fnLabel(fns[0])
	if try(false) {
		c.Must(true, key, P.pos(fns[0].Pos()), "")
		return
	}
	first = nil
	if try(true) {
		d.n["undecided"]++
		c.notes = append(c.notes, fmt.Sprintf("the recursion of %s is not decided", fnLabel(fns[0])))
		return
	}
	c.Must(false, key, P.ipos(first.in), "%s calls %s again with something that is not known to be smaller", fnLabel(first.from), fnLabel(first.to))
}

// chanOf: the channel made in this run of the analysis that a term stands for.
func chanMade(st *State, ch *Term) bool {
	return ch != nil && ch.op == OAlloc && strings.HasPrefix(ch.s, "chan")
}

// reachesChan: the channel can be reached from one of the values.
func reachesChan(st *State, vs []*Term, ch *Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == ch {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		if !t.isConst() {
			for a, v := range st.mem {
				if a.has(t) && walk(v) {
					return true
				}
			}
		}
		return false
	}
	for _, v := range vs {
		if walk(v) {
			return true
		}
	}
	return false
}

// queues: nobody waits for an event that cannot happen.
func (d *ends) queues() {
	c, P := d.c, d.c.P
	roots := map[*ssa.Function]bool{}
	bodies := map[*ssa.Function]bool{}
	closers := map[string]int{}
	waits := map[string]ssa.Instruction{}
	for _, f := range P.fns {
		if f.Synthetic != "" && f.Parent() == nil && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeChan:
					roots[f] = true
				case *ssa.Go:
					roots[f] = true
					fns, _, _ := funcValues(P, x.Common().Value, map[ssa.Value]bool{})
					for _, g := range fns {
						if P.inRepo(g) && g.Blocks != nil {
							bodies[g] = true
						}
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW && x.CommaOk && !P.unused(f) {
						waits[chanType(x.X.Type())] = in
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						closers[chanType(x.Common().Args[0].Type())]++
						d.n["close"]++
					}
					if fn := x.Common().StaticCallee(); fn != nil && isSpawnCall(calleeName(fn)) {
						roots[f] = true
						fns, _, _ := funcValues(P, x.Common().Args[1], map[ssa.Value]bool{})
						for _, g := range fns {
							if P.inRepo(g) && g.Blocks != nil {
								bodies[g] = true
							}
						}
					}
				}
			}
		}
	}
	for t, in := range waits {
		c.Must(closers[t] > 0, "closed|"+t, P.ipos(in), "the items of a queue of %s are taken until it is closed, but nothing closes it", t)
		d.n["taken"]++
	}
	for f := range bodies {
		roots[f] = true
	}
	for _, f := range sortedFns(roots) {
		if f.Signature.Recv() != nil && isLexer(f.Signature.Recv().Type()) {
			continue
		}
		d.thread(f, bodies[f])
	}
	c.least("queues that are closed", d.n["close"], 1)
	c.least("sends to queues", d.n["send"], 1)
}

func chanType(t types.Type) string {
	ct, ok := t.Underlying().(*types.Chan)
	if !ok {
		return "?"
	}
	return types.TypeString(ct.Elem(), short)
}

func (d *ends) thread(root *ssa.Function, body bool) {
	c, P := d.c, d.c.P
	chans := func(f *ssa.Function) bool {
		for g := range P.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send, *ssa.MakeChan, *ssa.Select, *ssa.Go:
						return true
					case *ssa.UnOp:
						if x.Op == token.ARROW {
							return true
						}
					case ssa.CallInstruction:
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
							return true
						}
						if fn := x.Common().StaticCallee(); fn != nil && isSpawnCall(calleeName(fn)) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	memo := map[*ssa.Function]bool{}
	r := &Rule{Name: "queues"}
	r.Stop = func(g *ssa.Function) bool {
		v, ok := memo[g]
		if !ok {
			v = !chans(g) || P.recursive(g) || g.Signature.Recv() != nil && isLexer(g.Signature.Recv().Type()) || g.Pkg != nil && g.Pkg.Pkg.Name() == "builder"
			memo[g] = v
		}
		return v
	}
	closes := false
	for g := range P.reach(root) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						closes = true
					}
				}
			}
		}
	}
	share := func(st *State, vs []*Term) {
		for ch := range madeChans(st) {
			if reachesChan(st, vs, ch) {
				st.Set("keep:shared:"+ref(ch), "1")
			}
		}
	}
	r.OnGo = func(e *Engine, st *State, callee *ssa.Function, fnTerm *Term, args []*Term, in ssa.Instruction) {
		share(st, append([]*Term{fnTerm}, args...))
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if isSpawnCall(ev.name) {
			share(st, ev.args)
		}
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		switch op {
		case "send":
			ch := args[0]
			d.n["send"]++
			c.must(e, st, in, st.Get("keep:closed:"+ref(ch)) == "", "send-closed", "something is sent to a queue that is closed")
			if !body || !chanMade(st, ch) {
				st.Set("keep:sends", "1")
			}
			if !chanMade(st, ch) || st.Get("keep:shared:"+ref(ch)) != "" {
				return
			}
			room := Int(0)
			if len(ch.args) > 0 {
				room = ch.args[0]
			}
			sent := Int(0)
			if s := unref(st.Get("keep:sent:" + ref(ch))); s != nil {
				sent = s
			}
			for _, f := range st.frames {
				for l := range f.loops {
					sent = Add(sent, iterOf(l, f.ctx), 1)
				}
			}
			ok := st.Is(Lt(sent, room))
			_, isConst := room.isInt()
			if !ok && !isConst {
				d.n["room-unknown"]++
				return
			}
			c.must(e, st, in, ok, "room", "more may be sent to a queue than it has room for, and nothing takes from it yet")
			st.Set("keep:sent:"+ref(ch), ref(AddN(orInt(unref(st.Get("keep:sent:"+ref(ch))), 0), 1))+" ")
		case "close":
			ch := args[0]
			c.must(e, st, in, st.Get("keep:closed:"+ref(ch)) == "", "close-twice", "a queue is closed twice")
			st.Set("keep:closed:"+ref(ch), "1")
			st.Set("keep:any-closed", "1")
		case "recv":
			ch := args[0]
			if !chanMade(st, ch) {
				return
			}
			d.n["recv"]++
			_, isSel := in.(*ssa.Select)
			ok := isSel || st.Get("keep:shared:"+ref(ch)) != "" || st.Get("keep:closed:"+ref(ch)) != ""
			c.must(e, st, in, ok, "nothing-sends", "a queue is waited for that nobody sends to or closes any more")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind != "back" {
			return
		}
		// one item for each way around is counted by the number of the way
		for k := range st.kv {
			if strings.HasPrefix(k, "keep:sent:") {
				delete(st.kv, k)
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if !body || !closes {
			return
		}
		if st.Get("keep:sends") != "" || closes {
			d.n["ends"]++
			c.must(e, st, in, st.Get("keep:any-closed") != "" || !d.closesParam(root), "left-open", "the queue is not closed when its items have been sent")
		}
	}
	c.explore(root, r, nil, nil)
}

// closesParam: the function closes a queue it was given (not one it makes).
func (d *ends) closesParam(root *ssa.Function) bool {
	P := d.c.P
	for g := range P.reach(root) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.MakeChan); ok {
					return false
				}
			}
		}
	}
	return true
}

func madeChans(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if chanMade(st, t) {
			out[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			walk(v)
		}
	}
	for _, v := range st.mem {
		walk(v)
	}
	return out
}

// decoding: reading or writing a value does not start over with the same value.
func (d *ends) decoding() {
	c, P := d.c, d.c.P
	base := func(t types.Type) types.Type {
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return t
			}
			t = p.Elem()
		}
	}
	has := func(t types.Type, method string) *ssa.Function {
		for _, f := range P.fns {
			if f.Synthetic == "" && f.Name() == method && f.Signature.Recv() != nil && types.Identical(base(f.Signature.Recv().Type()), t) {
				return f
			}
		}
		return nil
	}
	next := map[*ssa.Function]map[*ssa.Function]ssa.Instruction{}
	link := func(f, g *ssa.Function, in ssa.Instruction) {
		if next[f] == nil {
			next[f] = map[*ssa.Function]ssa.Instruction{}
		}
		next[f][g] = in
	}
	var same func(v, p ssa.Value) bool
	same = func(v, p ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return same(x.X, p)
		case *ssa.ChangeType:
			return same(x.X, p)
		}
		return v == p
	}
	for _, f := range P.fns {
		if f.Synthetic != "" || f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		recv := base(f.Signature.Recv().Type())
		format := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				switch name := calleeName(call.Common().StaticCallee()); {
				case name == "(*yaml.Node).Decode" && f.Name() == "UnmarshalYAML" && len(f.Params) == 2:
					d.n["decode"]++
					a := call.Common().Args
					mi, ok := a[1].(*ssa.MakeInterface)
					if !ok || !same(a[0], f.Params[1]) {
						continue
					}
					if g := has(base(mi.X.Type()), "UnmarshalYAML"); g != nil {
						link(f, g, in)
					}
				case strings.HasPrefix(name, "fmt."):
					for _, a := range call.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && isString(k.Type()) {
							format = k.Value.String()
						}
					}
					if format == "" {
						format = "%v"
					}
				case name == "json.Unmarshal" && f.Name() == "UnmarshalJSON":
					a := call.Common().Args
					mi, ok := a[1].(*ssa.MakeInterface)
					if ok && same(a[0], f.Params[1]) {
						if g := has(base(mi.X.Type()), "UnmarshalJSON"); g != nil {
							link(f, g, in)
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || !types.Identical(base(mi.X.Type()), recv) {
					continue
				}
				// the value that is written is the receiver itself
				self := mi.X == ssa.Value(f.Params[0])
				if u, ok := mi.X.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(f.Params[0]) {
					self = true
				}
				if !self {
					continue
				}
				switch f.Name() {
				case "String", "Error", "GoString":
					verbs := strings.Contains(format, "%v") || strings.Contains(format, "%s") || strings.Contains(format, "%q") || strings.Contains(format, "%+v") || strings.Contains(format, "%w")
					if format != "" && verbs {
						link(f, f, in)
					}
				case "MarshalYAML":
					for _, r := range *mi.Referrers() {
						if _, ok := r.(*ssa.Return); ok {
							link(f, f, in)
						}
					}
				case "MarshalJSON":
					for _, r := range *mi.Referrers() {
						if cl, ok := r.(ssa.CallInstruction); ok && cl.Common().StaticCallee() != nil && strings.HasPrefix(calleeName(cl.Common().StaticCallee()), "json.Marshal") {
							link(f, f, in)
						}
					}
				}
			}
		}
		switch f.Name() {
		case "String", "Error", "MarshalYAML", "UnmarshalYAML", "MarshalJSON", "UnmarshalJSON":
			d.n["hooks"]++
			c.Must(true, "hook|"+fnLabel(f), P.pos(f.Pos()), "")
		}
	}
	for f, gs := range next {
		for g, in := range gs {
			seen := map[*ssa.Function]bool{}
			var walk func(x *ssa.Function) bool
			walk = func(x *ssa.Function) bool {
				if x == f {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range next[x] {
					if walk(y) {
						return true
					}
				}
				return false
			}
			c.Must(!walk(g), "again|"+fnLabel(f), P.ipos(in), "%s is called again for the same value", fnLabel(f))
		}
	}
}

// lexer: a state of the lexer sends no more than there is room for and is followed by itself only after it moved on.
func (d *ends) lexer() {
	c, P := d.c, d.c.P
	states := P.stateFns()
	isState := map[*ssa.Function]bool{}
	for _, f := range states {
		isState[f] = true
	}
	room := int64(-1)
	for _, f := range P.PkgFuncs("builder") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeChan); ok && chanType(m.Type()) == "builder.lexeme" {
					if k, ok := m.Size.(*ssa.Const); ok {
						if n := k.Int64(); room < 0 || n < room {
							room = n
						}
					}
				}
			}
		}
	}
	if room < 0 {
		c.notes = append(c.notes, "the room for lexemes is not a constant")
		return
	}
	idle := map[*ssa.Function]map[*ssa.Function]ssa.Instruction{}
	for _, f := range states {
		f := f
		l := Param(f.Params[0].Name(), f.Params[0].Type())
		intT := types.Typ[types.Int]
		P0 := Param("pos", intT)
		r := &Rule{Name: "states"}
		r.Stop = func(g *ssa.Function) bool {
			return !sendsLexeme(P, g) && P.storesPos(g) || isState[g]
		}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			g := ev.callee
			if g == nil || !P.inRepo(g) || !P.storesPos(g) || sendsLexeme(P, g) {
				return
			}
			ev.handled, ev.noHavoc = true, true
			if n := g.Signature.Results().Len(); n > 0 {
				ev.results = e.freshResults(st, ev.instr, ev.name, n)
				st.Set("keep:took:"+ref(ev.results[0]), ref(ev.results[0])+" ")
			}
		}
		sent := func(st *State) int {
			return len(st.Get("keep:sent"))
		}
		r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
			if s, ok := in.(*ssa.Send); ok && op == "send" && isLexeme(s.X.Type()) {
				d.n["lexemes"]++
				st.Set("keep:sent", st.Get("keep:sent")+"x")
				c.must(e, st, in, int64(sent(st)) <= room, "lexeme-room", "a state of the lexer sends more than there is room for (%d), and nothing takes it before the state ends", room)
			}
		}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			d.n["states"]++
			moved := false
			pos := e.Load(st, FA(l, "pos"), intT)
			if k, ok := Add(pos, P0, -1).isInt(); !ok || k > 0 {
				moved = true
			}
			for _, x := range st.listed("keep:took:") {
				switch {
				case x.typ != nil && isBoolType(x.typ):
					moved = moved || st.Is(x)
				}
			}
			for t := range st.facts.b {
				if st.facts.b[t] && t.op == OSite {
					moved = moved || st.Get("keep:took:"+ref(t)) != ""
				}
			}
			if g := res[0].fn; res[0].op == OFn && isState[g] && !moved {
				if idle[f] == nil {
					idle[f] = map[*ssa.Function]ssa.Instruction{}
				}
				idle[f][g] = in
			}
		}
		c.explore(f, r, nil, func(st *State) { st.mem[FA(l, "pos")] = P0 })
	}
	for f := range idle {
		for g, in := range idle[f] {
			seen := map[*ssa.Function]bool{}
			var walk func(x *ssa.Function) bool
			walk = func(x *ssa.Function) bool {
				if x == f {
					return true
				}
				if seen[x] {
					return false
				}
				seen[x] = true
				for y := range idle[x] {
					if walk(y) {
						return true
					}
				}
				return false
			}
			c.Must(!walk(g), "idle|"+fnLabel(f), P.ipos(in), "the lexer may come back to %s without having read anything", fnLabel(f))
		}
	}
	c.least("lexemes sent", d.n["lexemes"], 3)
	c.least("ends of states", d.n["states"], 3)
}

// locks: a lock that is taken is given back before the function that took it ends.
func (d *ends) locks() {
	c, P := d.c, d.c.P
	isLock := func(n string) string {
		switch n {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "invoke:sync.Locker.Lock":
			return "w"
		case "(*sync.RWMutex).RLock":
			return "r"
		}
		return ""
	}
	for _, f := range P.fns {
		if f.Synthetic != "" {
			continue
		}
		uses := false
		for _, s := range P.graph().out[f] {
			uses = uses || isLock(s.ext) != ""
		}
		if !uses {
			continue
		}
		frees := false
		for g := range P.reach(f) {
			for _, s := range P.graph().out[g] {
				frees = frees || strings.HasSuffix(s.ext, "nlock")
			}
		}
		if !frees {
			continue // taken for the caller
		}
		r := &Rule{Name: "locks"}
		r.Stop = func(g *ssa.Function) bool {
			for h := range P.reach(g) {
				for _, s := range P.graph().out[h] {
					if isLock(s.ext) != "" || strings.HasSuffix(s.ext, "nlock") {
						return P.recursive(g)
					}
				}
			}
			return true
		}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			if k := isLock(ev.name); k != "" {
				d.n["locks"]++
				ev.handled, ev.noHavoc = true, true
				c.must(e, st, ev.instr, st.Get("keep:lock:"+ref(ev.args[0])) != "w", "locked-twice", "a lock is taken again by its holder")
				st.Set("keep:lock:"+ref(ev.args[0]), k)
			} else if strings.HasSuffix(ev.name, "nlock") && strings.Contains(ev.name, "sync.") {
				ev.handled, ev.noHavoc = true, true
				st.Set("keep:lock:"+ref(ev.args[0]), "")
			}
		}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			for k, v := range st.kv {
				if strings.HasPrefix(k, "keep:lock:") && v != "" {
					c.must(e, st, in, false, "locked", "a lock is not given back")
				}
			}
		}
		c.explore(f, r, nil, nil)
	}
}
