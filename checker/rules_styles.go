package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// documented style names
var styleNames = map[string][]string{
	"NormalStyle":       {"normal", "n"},
	"TaggedStyle":       {"tagged", "tag", "t"},
	"DoubleQuotedStyle": {"doublequoted", "doublequote", "double", "dq"},
	"SingleQuotedStyle": {"singlequoted", "singlequote", "single", "sq"},
	"LiteralStyle":      {"literal", "l"},
	"FoldedStyle":       {"folded", "fold", "fo"},
	"FlowStyle":         {"flow", "fl"},
}

// styleTable: the value of each documented name. The renderer's constants are taken from the library.
func (c *Check) styleTable() map[string]int64 {
	tab := map[string]int64{}
	yml := c.P.tpkg("gopkg.in/yaml.v3")
	act := c.P.tpkg("actions")
	for k, names := range styleNames {
		v := int64(64)
		if k != "NormalStyle" {
			if yml == nil {
				c.Must(false, "renderer", "-", "package yaml.v3 was not found")
				return nil
			}
			o, ok := yml.Scope().Lookup(k).(*types.Const)
			if !c.Must(ok, "renderer|"+k, "-", "the renderer has no style %s", k) {
				return nil
			}
			v, _ = constant.Int64Val(o.Val())
		} else if act != nil {
			if o, ok := act.Scope().Lookup(k).(*types.Const); ok {
				v, _ = constant.Int64Val(o.Val())
			}
			c.Must(v&63 == 0, "normal", "-", "the normal style selects a style of the renderer")
		}
		for _, n := range names {
			tab[n] = v
		}
	}
	return tab
}

// tpkg finds a package by import path or, in the repository, by its last element.
func (P *Program) tpkg(path string) *types.Package {
	for _, p := range P.prog.AllPackages() {
		if p.Pkg.Path() == path || strings.HasSuffix(p.Pkg.Path(), "/internal/"+path) {
			return p.Pkg
		}
	}
	return nil
}

func isStyleType(t types.Type) bool {
	switch typeName(t) {
	case "actions.Style", "actions.Styles", "yaml.Style":
		return true
	}
	return false
}

func stripConv(t *Term) *Term {
	for t != nil && t.op == OCall && strings.HasPrefix(t.s, "conv:") {
		t = t.args[0]
	}
	return t
}

// parsesStyles: turns names into styles.
func parsesStyles(f *ssa.Function) bool {
	in := false
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
			in = true
		}
	}
	if !in {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isStyleType(f.Signature.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

// ruleStyles: output styles (C24).
func ruleStyles(c *Check) {
	P := c.P
	c.rule("In every output function, on every path, each document that is rendered was given to the style setter before, with the combination by or of the styles that the name parser returns for the outputStyle setting. The style setter stores exactly that value in the Style of every node of each kind, calls itself on all children with the same value, and writes nothing else; nothing else reached from output changes nodes.")
	c.rule("The name parser is followed for one element of its argument: each part of the lower cased text split at commas that is known to be a documented name adds exactly the documented style, and where nothing is added the part is known to be none of the names. The table given to the command line flag has exactly the documented names. The styles have the values of the renderer's constants.")
	tab := c.styleTable()
	if tab == nil {
		return
	}
	setters := map[*ssa.Function]bool{}
	roots := P.outputFns()
	isSetter := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "yaml.Node" {
					continue
				}
				if fieldName(deref(fa.X.Type()), fa.Field) == "Style" && isStyleType(stripSSA(s.Val).Type()) {
					for _, g := range P.fns {
						if (g == f || P.reaches(g, f)) && P.recursiveSetter(g) {
							isSetter[g] = true
						}
					}
				}
			}
		}
	}
	parsers := map[*ssa.Function]bool{}
	n := map[string]int{}
	for _, root := range sortedFns(roots) {
		n["roots"]++
		c.styledOutput(root, isSetter, setters, parsers, n)
	}
	c.least("output functions", n["roots"], 1)
	c.least("documents rendered", n["encode"], 1)
	c.least("uses of the style setter", len(setters), 1)
	c.least("style name parsers", len(parsers), 1)
	for _, f := range sortedFns(setters) {
		c.setsStyle(f)
	}
	for _, f := range sortedFns(parsers) {
		c.parsesStyle(f, tab)
	}
	// nothing else changes nodes during output
	for root := range roots {
		for f := range P.reach(root) {
			if !P.inRepo(f) || setters[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "yaml.Node" {
							if _, own := fa.X.(*ssa.Alloc); !own && !P.setterPart(f, setters) {
								c.Must(false, "writes|"+fnLabel(f), P.ipos(in), "%s changes %s of a node during output", fnLabel(f), fieldName(deref(fa.X.Type()), fa.Field))
							}
						}
					}
				}
			}
		}
	}
	c.flagTable(tab)
}

func stripSSA(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if !isStyleType(x.X.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			if !isStyleType(x.X.Type()) {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// recursiveSetter: the function calls itself and has a style parameter.
func (P *Program) recursiveSetter(f *ssa.Function) bool {
	has := false
	for _, p := range f.Params {
		if isStyleType(p.Type()) {
			has = true
		}
	}
	return has && P.recursive(f)
}

// setterPart: helper called only by style setters.
func (P *Program) setterPart(f *ssa.Function, setters map[*ssa.Function]bool) bool {
	in := P.graph().in[f]
	if len(in) == 0 {
		return false
	}
	for _, s := range in {
		p := s.instr.Parent()
		if !setters[p] && p != f && !P.setterPart2(p, setters) {
			return false
		}
	}
	return true
}

func (P *Program) setterPart2(f *ssa.Function, setters map[*ssa.Function]bool) bool {
	for s := range setters {
		if P.reaches(s, f) {
			return true
		}
	}
	return false
}

func (c *Check) styledOutput(root *ssa.Function, isSetter, setters, parsers map[*ssa.Function]bool, n map[string]int) {
	r := &Rule{Name: "styled"}
	r.Stop = func(f *ssa.Function) bool {
		return isSetter[f] || parsesStyles(f)
	}
	names := Call("viper.GetStringSlice", Str("outputstyle"))
	list, one := Call("styles", names), Call("style", names)
	acc := &Acc{key: "style", is: func(ph *ssa.Phi) bool { return isIntType(ph.Type()) && isStyleType(ph.Type()) },
		lists: func(st *State) []*Term { return []*Term{list} }}
	var cur *Term
	acc.step = func(e *Engine, st *State, old, nw *Term) (*Term, bool) { cur = old; return nw, true }
	acc.match = func(st *State, l, idx, el, nw *Term) bool { return orOf(cur, el, nw) }
	var built func(e *Engine, st *State, t *Term) bool
	built = func(e *Engine, st *State, t *Term) bool {
		t = stripConv(t)
		if t == one || st.Get("acc:style:"+ref(list)+":"+ref(t)) != "" {
			return true
		}
		z, ok := t.isInt()
		return t == Call("fold", list) || ok && z == 0 && st.emptyList(list)
	}
	r.OnPhi = acc.onPhi
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		acc.onLoop(e, st, ev)
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		switch {
		case ev.name == "viper.GetStringSlice":
			if s, ok := ev.args[0].isStr(); ok {
				ev.handled = true
				ev.results = []*Term{Call(ev.name, Str(strings.ToLower(s)))}
			}
		case ev.callee != nil && parsesStyles(ev.callee):
			ev.handled = true
			src := e.list(st, ev.args[len(ev.args)-1])
			if !c.must(e, st, in, src == names, "setting", "styles are read from %v instead of the outputStyle setting", src) {
				ev.results = []*Term{Call("wrong")}
				return
			}
			parsers[ev.callee] = true
			for i := 0; i < ev.callee.Signature.Results().Len(); i++ {
				t := ev.callee.Signature.Results().At(i).Type()
				switch {
				case isSliceType(t):
					ev.results = append(ev.results, list)
				case isStyleType(t):
					ev.results = append(ev.results, one)
				default:
					ev.results = append(ev.results, e.freshResults(st, in, ev.name, 1)...)
				}
			}
		case isSetter[ev.callee]:
			ev.handled = true
			setters[ev.callee] = true
			if ev.recur {
				return
			}
			for i, p := range ev.callee.Params {
				a := ev.args[i]
				switch {
				case isSliceType(p.Type()) && isStyleType(p.Type()):
					c.must(e, st, in, e.list(st, a) == list, "style", "the styles set are %v, not those of the outputStyle setting", a)
				case isStyleType(p.Type()):
					c.must(e, st, in, built(e, st, a), "style", "the style set, %v, is not known to be the combination of the styles of the outputStyle setting", a)
				case isSliceType(p.Type()):
					l := e.list(st, a)
					if l.op == OElems {
						for _, x := range l.args {
							st.Set("styled:"+ref(x), ref(x))
						}
					} else {
						st.Set("styledlist:"+ref(l), ref(l))
					}
				default:
					st.Set("styled:"+ref(a), ref(a))
				}
			}
		case ev.name == "(*yaml.Encoder).Encode" || ev.name == "yaml.Marshal":
			n["encode"]++
			d := unwrap(ev.args[len(ev.args)-1])
			ok := st.Get("styled:"+ref(d)) != ""
			if d.op == OLD && d.args[0].op == OEA && st.Get("styledlist:"+ref(d.args[0].args[0])) != "" {
				ok = true
			}
			c.must(e, st, in, ok, "unstyled", "a document is rendered that was not given the requested styles")
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
		}
	}
	c.explore(root, r, nil, nil)
}

// orOf: nw is the or of old and el.
func orOf(old, el, nw *Term) bool {
	o, x, w := stripConv(old), stripConv(el), stripConv(nw)
	if w == Bin("|", o, x) {
		return true
	}
	return Bin("|", old, el) == nw
}

// setsStyle: the style setter sets the style of all nodes.
func (c *Check) setsStyle(f *ssa.Function) {
	var sty, nodes, node *Term
	si, ni := -1, -1
	for i, p := range f.Params {
		switch {
		case isStyleType(p.Type()):
			sty, si = Param(p.Name(), p.Type()), i
		case isSliceType(p.Type()):
			nodes, ni = Param(p.Name(), p.Type()), i
		case typeName(deref(p.Type())) == "yaml.Node":
			node, ni = Param(p.Name(), p.Type()), i
		}
	}
	if !c.Must(si >= 0 && ni >= 0, "setter-params|"+fnLabel(f), c.P.pos(f.Pos()), "the parameters of the style setter %s are not known", fnLabel(f)) {
		return
	}
	isList := isSliceType(f.Params[si].Type())
	r := &Rule{Name: "set"}
	acc := &Acc{key: "or", is: func(ph *ssa.Phi) bool { return isIntType(ph.Type()) && isStyleType(ph.Type()) }, lists: func(st *State) []*Term { return []*Term{sty} }}
	var cur *Term
	acc.step = func(e *Engine, st *State, old, nw *Term) (*Term, bool) { cur = old; return nw, true }
	acc.match = func(st *State, l, idx, el, nw *Term) bool { return orOf(cur, el, nw) }
	value := func(st *State, v *Term) bool {
		v = stripConv(v)
		if !isList {
			return v == sty
		}
		z, ok := v.isInt()
		return st.Get("acc:or:"+ref(sty)+":"+ref(v)) != "" || ok && z == 0 && st.emptyList(sty)
	}
	sub := 0
	contentOf := func(e *Engine, st *State, x *Term) *Term { return e.list(st, e.Load(st, FA(x, "Content"), nil)) }
	// done: the node x is finished
	done := func(e *Engine, st *State, x *Term) string {
		bad := ""
		for _, k := range []int64{kDoc, kSeq, kMap, kScal, kAlias} {
			st.with(func(s *State) {
				if !value(s, e.Load(s, FA(x, "Style"), nil)) {
					bad = "the style of a node of kind " + kindName(k) + " is not known to be set"
				}
				if k == kScal || k == kAlias {
					return
				}
				l := contentOf(e, s, x)
				if s.Get("sublist:"+ref(l)) == "" && s.all("sub", l) == "" && !s.emptyList(l) {
					bad = "the styles of the children of a node of kind " + kindName(k) + " are not known to be set"
				}
			}, EqInt(e.Load(st, FA(x, "Kind"), nil), Int(k)))
		}
		return bad
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee != f {
			return
		}
		ev.handled = true
		sub++
		a := ev.args[si]
		ok := value(st, a)
		if isList {
			ok = a == sty
		}
		c.must(e, st, ev.instr, ok, "sub-style", "children are given the style %v", a)
		x := ev.args[ni]
		if nodes != nil {
			l := e.list(st, x)
			if l.op == OElems {
				for _, y := range l.args {
					st.Set("sub:"+ref(y), ref(y))
				}
			} else {
				st.Set("sublist:"+ref(l), ref(l))
			}
		} else {
			st.Set("sub:"+ref(x), ref(x))
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil || addr.op == OGlobal {
			return
		}
		if c.must(e, st, in, addr.op == OFA && addr.s == "Style", "other-write", "setting styles changes %v", addr) {
			c.must(e, st, in, value(st, val), "value", "the style stored, %v, is not the requested one", val)
		}
	}
	r.OnPhi = acc.onPhi
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		acc.onLoop(e, st, ev)
		var lists []*Term
		outer, _ := st.iters()
		if nodes != nil {
			for _, k := range outer {
				if k != ev.iter {
					lists = append(lists, contentOf(e, st, e.Load(st, EA(nodes, k), nil)))
				}
			}
			st.forAll(ev, "done", []*Term{nodes}, func(l, idx, el *Term) bool { return done(e, st, e.Load(st, EA(l, idx), nil)) == "" })
		} else {
			lists = append(lists, contentOf(e, st, node))
		}
		st.forAll(ev, "sub", lists, func(l, idx, el *Term) bool { return st.Get("sub:"+ref(e.Load(st, EA(l, idx), nil))) != "" })
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	rets := 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		rets++
		if nodes != nil {
			c.must(e, st, in, st.all("done", nodes) != "" || st.emptyList(nodes), "not-all", "%s does not set the style of all nodes and everything below them", fnLabel(f))
			return
		}
		if st.Is(Eq(node, Nil())) {
			return
		}
		bad := done(e, st, node)
		c.must(e, st, in, bad == "", "not-all", "in %s %s", fnLabel(f), bad)
	}
	c.explore(f, r, nil, nil)
	c.least("recursive calls of "+fnLabel(f), sub, 1)
	c.least("returns of "+fnLabel(f), rets, 1)
}

func kindName(k int64) string {
	switch k {
	case kDoc:
		return "document"
	case kSeq:
		return "sequence"
	case kMap:
		return "mapping"
	case kScal:
		return "scalar"
	}
	return "alias"
}

// parsesStyle: the parser of style names.
func (c *Check) parsesStyle(f *ssa.Function, tab map[string]int64) {
	var list *Term
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
			list = Param(p.Name(), p.Type())
		}
	}
	r := &Rule{Name: "names"}
	var names []string
	for k := range tab {
		names = append(names, k)
	}
	sort.Strings(names)
	n := map[string]int{}
	hit := map[string]bool{}
	is := func(ph *ssa.Phi) bool { return isStyleType(ph.Type()) }
	splits := func(st *State) []*Term { return st.listed("keep:split:") }
	// the text el with the changes that do not matter removed, and whether it is lower case
	chain := func(t *Term) (*Term, bool) {
		low := false
		for t.op == OCall && len(t.args) > 0 {
			switch t.s {
			case "strings.ToLower":
				low = true
			case "strings.TrimSpace", "strings.Trim":
			default:
				return t, low
			}
			t = t.args[0]
		}
		return t, low
	}
	lower := func(S *Term) bool {
		return S.any(func(x *Term) bool { return x.op == OCall && x.s == "strings.ToLower" })
	}
	truth := func(st *State, S, el *Term, name string) tri {
		res := U
		for t, v := range st.facts.b {
			var x *Term
			switch {
			case t.op == OCall && t.s == "strings.EqualFold":
				for i := 0; i < 2; i++ {
					if s, ok := t.args[i].isStr(); ok && strings.ToLower(s) == name {
						x = Call("strings.ToLower", t.args[1-i])
					}
				}
			case t.op == OEq:
				for i := 0; i < 2; i++ {
					if s, ok := t.args[i].isStr(); ok && s == name {
						x = t.args[1-i]
					} else if ok && v {
						if b, _ := chain(t.args[1-i]); b == el {
							if s != strings.ToLower(s) {
								return U
							}
							res = N // equal to another name
						}
					}
				}
			}
			if x == nil {
				continue
			}
			if b, low := chain(x); b == el && (low || lower(S)) {
				if v {
					return Y
				}
				return N
			}
		}
		return res
	}
	var cur *Term
	part := &Acc{key: "part", is: is, lists: splits, any: true}
	added := func(e *Engine, st *State, old, nw *Term) (*Term, bool) {
		cur = old
		if isListTerm(nw) || isListTerm(old) {
			return tail(e.list(st, old), e.list(st, nw))
		}
		return nw, true
	}
	part.step = added
	part.match = func(st *State, S, idx, el, sfx *Term) bool {
		if !st.Is(Lt(idx, LenOf(S))) {
			return false
		}
		var got []int64
		switch {
		case sfx.op == OElems:
			for _, x := range sfx.args {
				v, ok := stripConv(x).isInt()
				if !ok {
					return false
				}
				got = append(got, v)
			}
		case sfx == cur:
		default:
			found := false
			for v := range map[int64]bool{1: true, 2: true, 4: true, 8: true, 16: true, 32: true, 64: true} {
				if Bin("|", cur, Int(v)) == sfx {
					got, found = append(got, v), true
				}
			}
			if !found {
				return false
			}
		}
		name, unknown := "", ""
		for _, k := range names {
			switch truth(st, S, el, k) {
			case Y:
				name = k
			case U:
				unknown = k
			}
		}
		if name != "" {
			ok := len(got) > 0
			for _, v := range got {
				ok = ok && v == tab[name]
			}
			if ok {
				hit[name] = true
			} else {
				n["wrong:"+name]++
			}
			return ok
		}
		return unknown == "" && len(got) == 0
	}
	grown := func(st *State, v *Term) (*Term, bool) {
		if s := st.Get("init:" + ref(v)); s != "" {
			return unref(s), true
		}
		return nil, false
	}
	all := &Acc{key: "all", is: is, lists: func(st *State) []*Term { return []*Term{list} }}
	all.step = func(e *Engine, st *State, old, nw *Term) (*Term, bool) {
		cur = old
		if i, ok := grown(st, nw); ok && i == old {
			return nw, true
		}
		if nw == old {
			return Elems(), true
		}
		if isListTerm(old) || isListTerm(nw) {
			sfx, ok := tail(e.list(st, old), e.list(st, nw))
			if !ok {
				return nil, false
			}
			i, g := grown(st, sfx)
			return sfx, g && (i.isNil() || i.op == OElems && len(i.args) == 0)
		}
		// or of a separate value
		for k := range st.kv {
			if strings.HasPrefix(k, "acc:part:") {
				if v := unref(k[strings.LastIndex(strings.TrimSpace(k), ":")+1:]); v != nil && Bin("|", old, v) == nw {
					if i, g := grown(st, v); g {
						z, isZ := i.isInt()
						return v, isZ && z == 0
					}
				}
			}
		}
		return nil, false
	}
	all.match = func(st *State, l, idx, el, sfx *Term) bool {
		for _, S := range splits(st) {
			if !S.has(el) {
				continue
			}
			if st.Get("acc:part:"+ref(S)+":"+ref(sfx)) != "" || sfx.op == OElems && len(sfx.args) == 0 && st.emptyList(S) {
				return true
			}
		}
		return false
	}
	r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
		if !is(ph) || old == nil {
			return
		}
		pt := phiTerm(ph, st.top().ctx)
		if st.Is(EqInt(iterOf(l, st.top().ctx), Int(0))) {
			st.Set("start:"+ref(pt), ref(old))
		}
		part.onPhi(e, st, ph, l, old, nw)
		all.onPhi(e, st, ph, l, old, nw)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		part.onLoop(e, st, ev)
		for _, in := range ev.l.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok || !is(ph) {
				continue
			}
			k := "start:" + ref(phiTerm(ph, ev.ctx))
			switch ev.kind {
			case "enter":
				st.Set(k, "")
			case "exit":
				if v := st.top().env[ph]; v != nil && st.Get(k) != "" {
					st.Set("init:"+ref(v), st.Get(k))
				}
			}
		}
		all.onLoop(e, st, ev)
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch ev.name {
		case "strings.Split":
			n["split"]++
			sep, ok := ev.args[1].isStr()
			c.must(e, st, ev.instr, ok && sep == ",", "separator", "style names are separated by %v", ev.args[1])
			trim := ev.args[0].any(func(x *Term) bool {
				if x.op != OCall || x.s != "strings.Trim" {
					return false
				}
				s, ok := x.args[1].isStr()
				return ok && strings.Contains(s, "[") && strings.Contains(s, "]")
			})
			c.must(e, st, ev.instr, trim, "brackets", "the brackets around a list of style names are not removed")
			S := Call(ev.name, ev.args...)
			ev.handled = true
			ev.results = []*Term{S}
			st.Set("keep:split:"+ref(S), ref(S))
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for i, v := range res {
			if !isStyleType(f.Signature.Results().At(i).Type()) {
				continue
			}
			n["returns"]++
			v = stripConv(v)
			z, zero := v.isInt()
			empty := (v.isNil() || v.op == OElems && len(v.args) == 0 || zero && z == 0) && st.emptyList(list)
			c.must(e, st, in, st.Get("acc:all:"+ref(list)+":"+ref(v)) != "" || empty, "names", "the styles returned by %s are not known to be exactly those of the documented names in its argument", fnLabel(f))
		}
	}
	c.explore(f, r, nil, nil)
	c.least("splits of the setting", n["split"], 1)
	c.least("returns of the parser", n["returns"], 1)
	for _, k := range names {
		c.Must(hit[k] && n["wrong:"+k] == 0, "name|"+k, c.P.pos(f.Pos()), "%s does not give the style name %q its documented meaning", fnLabel(f), k)
	}
}

func isListTerm(t *Term) bool {
	return t != nil && (t.isNil() || t.op == OElems || t.op == OCat || t.op == OAlloc || t.typ != nil && isSliceType(t.typ) || t.op == OPhi && isSliceType(t.site.(ssa.Value).Type()))
}

// flagTable: the names accepted on the command line.
func (c *Check) flagTable(tab map[string]int64) {
	P := c.P
	found := 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				n, _ := callName(in)
				if n != "enumflag.New" && n != "enumflag.NewSlice" {
					continue
				}
				args := in.(ssa.CallInstruction).Common().Args
				for i, a := range args {
					v := a
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					mt, ok := v.Type().Underlying().(*types.Map)
					if !ok || typeName(mt.Key()) != "actions.Style" {
						continue
					}
					found++
					m, ok := P.mapTable(v, 0)
					if !c.Must(ok, "flag-table", P.ipos(in), "the table of style names is not known") {
						continue
					}
					got := map[string]int64{}
					for k, names := range m {
						kv, _ := constant.Int64Val(k)
						for _, s := range names {
							ls := strings.ToLower(s)
							_, dup := got[ls]
							c.Must(!dup, "flag-dup|"+ls, P.ipos(in), "the command line has two styles named %s", ls)
							got[ls] = kv
						}
					}
					for k, want := range tab {
						v, ok := got[k]
						c.Must(ok && v == want, "flag|"+k, P.ipos(in), "the style name %s does not have its documented meaning on the command line", k)
					}
					for k := range got {
						_, ok := tab[k]
						c.Must(ok, "flag-extra|"+k, P.ipos(in), "the style name %s is accepted on the command line only", k)
					}
					last := args[len(args)-1]
					k, isc := last.(*ssa.Const)
					ok2 := false
					if isc && k.Value != nil && i < len(args)-1 {
						x, _ := constant.Int64Val(constant.ToInt(k.Value))
						lib := P.tpkg("github.com/thediveo/enumflag")
						if lib != nil {
							if o, ok := lib.Scope().Lookup("EnumCaseInsensitive").(*types.Const); ok {
								w, _ := constant.Int64Val(constant.ToInt(o.Val()))
								ok2 = x == w
							}
						}
						if isBoolType(k.Type()) {
							ok2 = constant.BoolVal(k.Value) == false
						}
					}
					c.Must(ok2, "flag-case", P.ipos(in), "style names on the command line are not compared without regard to case")
				}
			}
		}
	}
	c.least("tables of style names for the command line", found, 1)
}

type tabKey = constant.Value

// mapTable evaluates a map literal whose keys are constants and whose values are constants or literal lists of strings.
func (P *Program) mapTable(v ssa.Value, depth int) (map[tabKey][]string, bool) {
	if depth > 4 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return P.mapTable(x.X, depth)
	case *ssa.ChangeType:
		return P.mapTable(x.X, depth)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil {
			return nil, false
		}
		var out map[tabKey][]string
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				m, ok := P.mapTable(r.Results[0], depth+1)
				if !ok || out != nil {
					return nil, false
				}
				out = m
			}
		}
		return out, out != nil
	case *ssa.UnOp:
		g, ok := x.X.(*ssa.Global)
		if !ok {
			return nil, false
		}
		var val ssa.Value
		for _, f := range P.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
						if val != nil || f.Name() != "init" {
							return nil, false
						}
						val = s.Val
					}
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							return nil, false
						}
					}
				}
			}
		}
		if val == nil {
			return nil, false
		}
		return P.mapTable(val, depth+1)
	case *ssa.MakeMap:
		out := map[tabKey][]string{}
		for _, r := range *x.Referrers() {
			mu, ok := r.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			k, ok := mu.Key.(*ssa.Const)
			if !ok {
				return nil, false
			}
			l, ok := constStrings(mu.Value)
			if !ok {
				return nil, false
			}
			out[k.Value] = append(out[k.Value], l...)
		}
		return out, true
	}
	return nil, false
}

// constStrings evaluates a constant string or a literal list of strings.
func constStrings(v ssa.Value) ([]string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.ChangeType:
		return constStrings(x.X)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]string, at.Len())
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok {
					k, ok := s.Val.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						return nil, false
					}
					out[i.Int64()] = constant.StringVal(k.Value)
				}
			}
		}
		return out, true
	}
	return nil, false
}
