package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Check collects what the rules of one property analysed and found.
type Check struct {
	P        *Program
	id       string
	findings []Finding
	seen     map[string]bool
	rules    []string
	oblig    int
	bad      int
	sites    map[string]bool // constructs an obligation was evaluated at
	fns      map[*ssa.Function]bool
	states   int
	blocks   int
	paths    int
	calls    int
	notes    []string
	cleared  map[*ssa.Function]bool
}

func newCheck(P *Program, id string) *Check {
	return &Check{P: P, id: id, seen: map[string]bool{}, sites: map[string]bool{}, fns: map[*ssa.Function]bool{}}
}

func (c *Check) rule(text string) { c.rules = append(c.rules, text) }

func (c *Check) add(f Finding) {
	if c.seen[f.key] {
		return
	}
	c.seen[f.key] = true
	c.findings = append(c.findings, f)
}

// Must is one obligation at a construct of the source.
func (c *Check) Must(ok bool, key, pos, format string, a ...interface{}) bool {
	c.oblig++
	if key != "" {
		c.sites[key] = true
	}
	if !ok {
		c.bad++
		c.add(Finding{key: key, pos: pos, msg: fmt.Sprintf(format, a...)})
	}
	return ok
}

// fn resolves an anchor; an anchor that does not exist any more fails the check.
func (c *Check) fn(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil || f.Blocks == nil {
		c.Must(false, "anchor|"+pkg+"."+name, "-", "the function %s.%s this rule is anchored at was not found", pkg, name)
		return nil
	}
	return f
}

// must is an obligation evaluated on one abstract path.
func (c *Check) must(e *Engine, st *State, in ssa.Instruction, ok bool, key, format string, a ...interface{}) bool {
	c.oblig++
	c.sites[key+"@"+c.where(st, in)] = true
	if !ok {
		c.bad++
		e.Violate(st, in, key+"|"+c.where(st, in), format, a...)
	}
	return ok
}

func (c *Check) where(st *State, in ssa.Instruction) string {
	if in != nil && in.Parent() != nil {
		return fnLabel(in.Parent())
	}
	if st != nil && len(st.frames) > 0 {
		return fnLabel(st.frames[0].fn)
	}
	return "-"
}

func fnLabel(f *ssa.Function) string {
	if f.Parent() != nil {
		return fnLabel(f.Parent()) + "$"
	}
	n := calleeName(f)
	return strings.ReplaceAll(n, "*", "")
}

// explore analyses root with the monitor and collects the findings.
func (c *Check) explore(root *ssa.Function, r *Rule, args []*Term, init func(st *State)) *Engine {
	e := NewEngine(c.P, r)
	if root == nil {
		return e
	}
	e.Run(root, args, nil, init)
	c.collect(e, root)
	return e
}

func (c *Check) collect(e *Engine, root *ssa.Function) {
	for _, k := range e.order {
		c.add(e.findings[k])
	}
	for f := range e.fns {
		c.fns[f] = true
	}
	c.states += e.states
	c.blocks += len(e.blocks)
	c.paths += e.ends
	c.calls += e.calls
	if e.undec != "" {
		c.Must(false, "undecided|"+fnLabel(root), c.P.pos(root.Pos()), "the analysis of %s was not completed: %s", fnLabel(root), e.undec)
	}
}

// least fails the check when fewer constructs were found than were confirmed by hand.
func (c *Check) least(what string, n, min int) {
	c.Must(n >= min, "instances|"+what, "-", "only %d instances of %s were found, at least %d are expected", n, what, min)
}

// ---- helpers for monitors

// fullScan tells whether a loop that is being left has made as many iterations as list has elements.
func fullScan(st *State, it, list *Term) string {
	if st.Truth(Lt(it, LenOf(list))) == N {
		return "fwd"
	}
	return ""
}

// fieldsOf lists the non fresh addresses written on this path.
func (st *State) written(skip func(a *Term) bool) []*Term {
	var out []*Term
	for a := range st.mem {
		if st.rootFresh(a) != nil || a.op == OGlobal {
			continue
		}
		if a.op == OFA && strings.HasPrefix(a.s, "[") {
			continue
		}
		if skip != nil && skip(a) {
			continue
		}
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// with evaluates f under additional assumptions; impossible assumptions are skipped.
func (st *State) with(f func(s *State), as ...*Term) {
	s := &State{frames: st.frames, mem: st.mem, hvs: st.hvs, facts: st.facts.clone(), kv: st.kv, tr: st.tr}
	for _, a := range as {
		if !s.facts.Assume(norm(a), true) {
			return
		}
	}
	f(s)
}

const (
	kDoc   = 1
	kSeq   = 2
	kMap   = 4
	kScal  = 8
	kAlias = 16
)

func kindIs(n *Term, k int64) *Term { return EqInt(Fld(n, "Kind"), Int(k)) }

func commentField(f string) bool {
	return f == "HeadComment" || f == "LineComment" || f == "FootComment"
}

func yn(t tri) string {
	switch t {
	case Y:
		return "yes"
	case N:
		return "no"
	}
	return "unknown"
}

// clearIter forgets monitor state about the previous iteration of a loop.
func (st *State) clearIter(it *Term) {
	id := ref(it)
	for k, v := range st.kv {
		if strings.HasPrefix(k, "bad:") || strings.HasPrefix(k, "keep:") {
			continue
		}
		if strings.Contains(" "+k, " "+id) || strings.Contains(k, ":"+id) || strings.Contains(" "+v, " "+id) {
			delete(st.kv, k)
		}
	}
}

// forAll tracks loops over the given lists: when a loop has visited every element of a list and ok held at the end
// of every iteration, "all:<key>:<list>" is set ("fwd" or "rev").
func (st *State) forAll(ev LoopEv, key string, lists []*Term, ok func(list, idx, el *Term) bool) {
	for _, l := range lists {
		bk := "bad:" + key + ":" + ref(ev.iter) + ref(l)
		switch ev.kind {
		case "enter":
			st.Set(bk, "")
			st.Set("bad:dir:"+key+":"+ref(ev.iter)+ref(l), "")
		case "back":
			good := ""
			for _, d := range []struct {
				n   string
				idx *Term
			}{{"fwd", ev.iter}, {"rev", AddN(Add(LenOf(l), ev.iter, -1), -1)}} {
				a := EA(l, d.idx)
				if ok(l, a.args[1], LD(a, 0)) {
					good = d.n
					break
				}
			}
			if good == "" {
				st.Set(bk, "1")
			}
			dk := "bad:dir:" + key + ":" + ref(ev.iter) + ref(l)
			if old := st.Get(dk); old != "" && old != good {
				good = "mixed"
			}
			st.Set(dk, good)
		case "exit":
			dk := "bad:dir:" + key + ":" + ref(ev.iter) + ref(l)
			if fullScan(st, ev.iter, l) != "" && st.Get(bk) == "" {
				d := st.Get(dk)
				if d == "" {
					d = "fwd"
				}
				st.Set("all:"+key+":"+ref(l), d)
			}
			st.Set(bk, "")
			st.Set(dk, "")
		}
	}
}

func (st *State) all(key string, l *Term) string { return st.Get("all:" + key + ":" + ref(l)) }

// emptyList: the list is known to have no elements; someList: it is known to have elements.
func (st *State) emptyList(l *Term) bool {
	return st.Is(Eq(l, Nil())) || st.Truth(Lt(Int(0), LenOf(l))) == N
}
func (st *State) someList(l *Term) bool {
	return st.IsNot(Eq(l, Nil())) || st.IsNot(EqInt(LenOf(l), Int(0)))
}

// listed returns the terms recorded under a prefix.
func (st *State) listed(prefix string) []*Term {
	var out []*Term
	for k := range st.kv {
		if strings.HasPrefix(k, prefix) {
			if t := unref(k[len(prefix):]); t != nil {
				out = append(out, t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// only evaluates an obligation when this check decides the property.
func (c *Check) for_(props ...string) bool {
	for _, p := range props {
		if p == c.id {
			return true
		}
	}
	return false
}
