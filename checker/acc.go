package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lists built by loops

// tail returns what nw has more than old, when nw is old with something appended.
func tail(old, nw *Term) (*Term, bool) {
	if old == nw {
		return Elems(), true
	}
	if old.isNil() || (old.op == OElems && len(old.args) == 0) {
		return nw, true
	}
	if n, ok := LenOf(old).isInt(); ok && n == 0 && parts(nw)[0] != old {
		return nw, true
	}
	op, np := parts(old), parts(nw)
	if len(np) < len(op) {
		return nil, false
	}
	for i, p := range op {
		if np[i] == p {
			continue
		}
		// a shorter literal in front
		if i == len(op)-1 && p.op == OElems && np[i].op == OElems && len(np[i].args) > len(p.args) {
			for j, x := range p.args {
				if np[i].args[j] != x {
					return nil, false
				}
			}
			rest := append([]*Term{Elems(np[i].args[len(p.args):]...)}, np[i+1:]...)
			return Cat(rest...), true
		}
		return nil, false
	}
	return Cat(np[len(op):]...), true
}

func parts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	return []*Term{t}
}

// Acc follows lists that grow by one piece per element of another list.
type Acc struct {
	key   string
	lists func(st *State) []*Term
	match func(st *State, list, idx, el, suffix *Term) bool
	// what an iteration adds (nil: elements appended to a list)
	step func(e *Engine, st *State, old, nw *Term) (*Term, bool)
	is   func(ph *ssa.Phi) bool
	any  bool // may start with something (the rule looks at that itself)
}

func (a *Acc) follows(ph *ssa.Phi) bool {
	if a.is != nil {
		return a.is(ph)
	}
	return isSliceType(ph.Type())
}

func phiTerm(ph *ssa.Phi, c *Ctx) *Term { return T.mk(Term{op: OPhi, site: ph, ctx: c}) }

func (a *Acc) onPhi(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
	f := st.top()
	it := iterOf(l, f.ctx)
	pt := phiTerm(ph, f.ctx)
	if !a.follows(ph) {
		return
	}
	if old == nil {
		// the old value is not used
		for _, lst := range a.lists(st) {
			st.Set("accbad:"+a.key+":"+ref(pt)+":"+ref(lst), "1")
		}
		return
	}
	var sfx *Term
	var ok bool
	if a.step != nil {
		sfx, ok = a.step(e, st, old, nw)
	} else {
		sfx, ok = tail(e.list(st, old), e.list(st, nw))
	}
	for _, lst := range a.lists(st) {
		good := false
		if ok {
			ad := EA(lst, it)
			good = a.match(st, lst, ad.args[1], LD(ad, 0), sfx)
		}
		if !good {
			st.Set("accbad:"+a.key+":"+ref(pt)+":"+ref(lst), "1")
		}
	}
}

func (a *Acc) onLoop(e *Engine, st *State, ev LoopEv) {
	var phis []*ssa.Phi
	for _, in := range ev.l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if a.follows(ph) {
			phis = append(phis, ph)
		}
	}
	for _, ph := range phis {
		for _, lst := range a.lists(st) {
			bad := "accbad:" + a.key + ":" + ref(phiTerm(ph, ev.ctx)) + ":" + ref(lst)
			switch ev.kind {
			case "enter":
				st.Set(bad, "")
				if v := edgeVal(e, st, ph); !a.any && !a.start(e, st, v) {
					st.Set(bad, "1")
				}
			case "exit":
				if v := st.top().env[ph]; v != nil && st.Get(bad) == "" && fullScan(st, ev.iter, lst) == "fwd" {
					st.Set("acc:"+a.key+":"+ref(lst)+":"+ref(v), "1")
				}
			}
		}
	}
}

// start: nothing is in the list, the sum, the text before the first piece.
func (a *Acc) start(e *Engine, st *State, v *Term) bool {
	if v == nil {
		return false
	}
	if n, ok := v.isInt(); ok {
		return n == 0
	}
	if s, ok := v.isStr(); ok {
		return s == ""
	}
	return isEmpty(e.list(st, v))
}

// built tells that t holds exactly one piece per element of list, in order.
func (a *Acc) built(e *Engine, st *State, t, list *Term) bool {
	if st.Get("acc:"+a.key+":"+ref(list)+":"+ref(t)) != "" {
		return true
	}
	n, ok := LenOf(e.list(st, t)).isInt()
	return (t.isNil() || (ok && n == 0)) && st.emptyList(list)
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// copyLists recognises lists that a loop fills with one deep copy of each element of another list, in order: after the
// loop such a list is the deep copy of the other one.
type copyLists struct{}

func (copyLists) follows(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if ok {
		_, ok = s.Elem().Underlying().(*types.Pointer)
	}
	return ok
}

// source: the list of which x is a deep copy of the element at it.
func (copyLists) source(x, it *Term) *Term {
	if x != nil && x.op == ODeep {
		if l, idx := whereOf(x.args[0]); l != nil && idx == it {
			return l
		}
	}
	return nil
}

func (copyLists) saw(st *State, what string, l *Term) {
	old := st.Get("keep:copyof:" + what)
	if l == nil || old != "" && old != ref(l)+" " {
		st.Set("bad:copyof:"+what, "1")
		return
	}
	st.Set("keep:copyof:"+what, ref(l)+" ")
}

func (k copyLists) onPhi(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
	if !k.follows(ph.Type()) {
		return
	}
	var src *Term
	if old != nil && nw != nil {
		if sfx, ok := tail(e.list(st, old), e.list(st, nw)); ok && sfx.op == OElems && len(sfx.args) == 1 {
			src = k.source(sfx.args[0], iterOf(l, st.top().ctx))
		}
	}
	k.saw(st, ref(phiTerm(ph, st.top().ctx)), src)
}

func (k copyLists) onLoop(e *Engine, st *State, ev LoopEv) {
	clear := func(what string) {
		st.Set("keep:copyof:"+what, "")
		st.Set("bad:copyof:"+what, "")
	}
	done := func(what string) *Term {
		l := unref(st.Get("keep:copyof:" + what))
		if l != nil && st.Get("bad:copyof:"+what) == "" && fullScan(st, ev.iter, l) == "fwd" {
			return l
		}
		return nil
	}
	for _, ph := range phisOf(ev.l, k.follows) {
		pt := phiTerm(ph, ev.ctx)
		switch ev.kind {
		case "enter":
			clear(ref(pt))
			if v := edgeVal(e, st, ph); v == nil || !isEmpty(e.list(st, v)) {
				st.Set("bad:copyof:"+ref(pt), "1")
			}
		case "exit":
			if l := done(ref(pt)); l != nil {
				if v := st.top().env[ph]; v != nil && v.op == OPhi {
					for x, y := range st.top().env {
						if y == v {
							st.top().env[x] = Deep(l)
						}
					}
				}
			}
		}
	}
	// filled by position
	for v, b := range st.top().env {
		if b == nil || b.op != OAlloc || b.s != "slice" || !k.follows(v.Type()) {
			continue
		}
		what := ref(ev.iter) + "in" + ref(b)
		switch ev.kind {
		case "enter":
			clear(what)
		case "back":
			k.saw(st, what, k.source(st.mem[EA(b, ev.iter)], ev.iter))
		case "exit":
			if l := done(what); l != nil && (LenOf(b) == LenOf(l) || st.Is(EqInt(LenOf(b), LenOf(l)))) {
				st.mem[contents(b)] = Deep(l)
			}
		}
	}
}

// filtered follows lists that a loop fills with those elements of another list that have some property, in order.
type filtered struct {
	key  string
	list *Term
	is_  func(t types.Type) bool
	keep func(e *Engine, st *State, el *Term) tri
}

func (k *filtered) onPhi(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
	if !k.is_(ph.Type()) {
		return
	}
	bad := "bad:filter:" + k.key + ref(phiTerm(ph, st.top().ctx))
	if old == nil || nw == nil {
		st.Set(bad, "1")
		return
	}
	el := El(k.list, iterOf(l, st.top().ctx))
	sfx, ok := tail(e.list(st, old), e.list(st, nw))
	switch {
	case ok && sfx == Elems(el) && k.keep(e, st, el) == Y:
	case ok && sfx == Elems() && k.keep(e, st, el) == N:
	default:
		st.Set(bad, "1")
	}
}

func (k *filtered) onLoop(e *Engine, st *State, ev LoopEv) {
	for _, ph := range phisOf(ev.l, k.is_) {
		bad := "bad:filter:" + k.key + ref(phiTerm(ph, ev.ctx))
		switch ev.kind {
		case "enter":
			st.Set(bad, "")
			if v := edgeVal(e, st, ph); v == nil || !isEmpty(e.list(st, v)) {
				st.Set(bad, "1")
			}
		case "exit":
			if v := st.top().env[ph]; v != nil && st.Get(bad) == "" && fullScan(st, ev.iter, k.list) == "fwd" {
				st.Set("keep:filter:"+k.key+":"+ref(v), ref(v)+" ")
			}
		}
	}
}

func (k *filtered) is(st *State, l *Term) bool {
	return st.Get("keep:filter:"+k.key+":"+ref(l)) != ""
}

func (k *filtered) lists(st *State) []*Term {
	var out []*Term
	for key, v := range st.kv {
		if strings.HasPrefix(key, "keep:filter:"+k.key+":") {
			if l := unref(v); l != nil {
				out = append(out, l)
			}
		}
	}
	return out
}
