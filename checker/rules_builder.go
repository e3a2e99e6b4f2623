package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isPathPtr: *builder.Path
func isPathPtr(t types.Type) bool { return typeName(t) == "*builder.Path" }

func isLexeme(t types.Type) bool { return typeName(t) == "builder.lexeme" }

// pathSteps: the functions that turn lexemes into paths and are started from elsewhere.
func (P *Program) pathSteps() []*ssa.Function {
	rec := map[*ssa.Function]bool{}
	for _, f := range P.PkgFuncs("builder") {
		s := f.Signature
		if s.Results().Len() == 2 && isPathPtr(s.Results().At(0).Type()) && P.recursive(f) && f.Parent() == nil {
			rec[f] = true
		}
	}
	var out []*ssa.Function
	for _, f := range P.PkgFuncs("builder") {
		if rec[f] {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && rec[ci.Common().StaticCallee()] {
					out = append(out, ci.Common().StaticCallee())
				}
			}
		}
	}
	return out
}

type builder struct {
	c     *Check
	step  *ssa.Function
	typ   map[string]int64
	texts map[*ssa.Function]string // functions on names and what they are used for
	n     map[string]int
	wild  bool // the path functions reject "*" themselves
}

// ruleBuilder: paths used for injection (C28).
func ruleBuilder(c *Check) {
	P := c.P
	c.rule("Every path of the function that turns the lexemes of a query into a builder is followed. An error lexeme, an unknown lexeme and an error of the rest of the path give an error; nothing else does. The builder that is returned is evaluated with the values captured for it: it gives, for the end of the path, a fresh empty scalar, for the root a fresh document around exactly one use of the rest of the path, and for a child, for each name, a fresh key followed by a use of the rest of the path of its own; it writes nothing that exists before.")
	c.rule("A key is the lexeme's text without its leading dot, or one of the bracket's names, unescaped exactly once. The functions on names are judged step by step.")
	c.rule("NewPath gives the whole query to the lexer, NewPaths fails where one query fails and otherwise has all of them in order, BuildPaths builds each of them and merges all into the first.")
	c.rule("In the lexer each lexeme that is sent has the text between the end of the one before and the current position; a child name is not empty and contains no character that starts another step; brackets hold quoted names only; the path ends only at the end of the input; anything else is an error lexeme.")
	b := &builder{c: c, wild: true, typ: map[string]int64{}, texts: map[*ssa.Function]string{}, n: map[string]int{}}
	for _, k := range []string{"Error", "Identity", "Root", "DotChild", "UndottedChild", "BracketChild", "EOF"} {
		v, ok := P.constOf("builder", "lexeme"+k)
		if !c.Must(ok, "const|"+k, "-", "the kind of lexeme %s was not found", k) {
			return
		}
		b.typ[k] = v
	}
	steps := P.pathSteps()
	c.least("functions turning lexemes into paths", len(steps), 1)
	for _, f := range steps {
		b.step = f
		b.stepFn(f)
	}
	if b.step != nil {
		b.paths()
	}
	b.judgeTexts()
	b.lexer()
	for _, k := range []string{"Identity", "EOF", "Root", "DotChild", "UndottedChild", "BracketChild"} {
		c.least("builders for "+k, b.n["builder:"+k], 1)
	}
	for _, k := range []string{"Identity", "Root", "DotChild", "BracketChild"} {
		c.least("evaluated builders for "+k, b.n["evaluated:"+k], 1)
	}
}

// known: the one kind of lexeme the facts leave, "" if there are several or none of the kinds.
func (b *builder) kind(st *State, typ *Term) (string, bool) {
	none := true
	for k, v := range b.typ {
		switch st.Truth(EqInt(typ, Int(v))) {
		case Y:
			return k, false
		case U:
			none = false
		}
	}
	return "", none
}

func (b *builder) stepFn(f *ssa.Function) {
	c := b.c
	lx := Call("lexeme")
	typ, val := FieldOf(lx, "typ", nil), FieldOf(lx, "val", nil)
	rest := Call("rest")
	sub, subErr := Ext(rest, 0), Ext(rest, 1)
	r := &Rule{Name: "path", KeepAll: true}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch {
		case b.textCall(e, st, ev):
		case ev.callee == f || ev.recur:
			c.must(e, st, ev.instr, st.Get("keep:rest") == "" && len(ev.args) > 0 && ev.args[0] == Param(f.Params[0].Name(), f.Params[0].Type()), "rest", "the rest of the path is read from %v", ev.args)
			ev.handled, ev.noHavoc = true, true
			ev.results = []*Term{sub, subErr}
			st.Set("keep:rest", "1")
		case ev.callee != nil && ev.callee.Signature.Results().Len() == 1 && isLexeme(ev.callee.Signature.Results().At(0).Type()):
			c.must(e, st, ev.instr, st.Get("keep:lexeme") == "" && st.Get("keep:rest") == "", "lexemes", "a step of a path reads more than one lexeme")
			ev.handled, ev.noHavoc = true, true
			ev.results = []*Term{lx}
			st.Set("keep:lexeme", "1")
		}
	}
	r.Stop = func(g *ssa.Function) bool {
		return b.isText(g) || g.Signature.Results().Len() == 1 && isLexeme(g.Signature.Results().At(0).Type())
	}
	star := func(st *State) bool {
		for t, v := range st.facts.b {
			if v && t.op == OEq && t.has(val) && (t.args[0] == Str("*") || t.args[1] == Str("*")) {
				return true
			}
		}
		return false
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if !c.must(e, st, in, st.Get("keep:lexeme") != "", "lexeme", "a step of a path is made without reading a lexeme") {
			return
		}
		k, none := b.kind(st, typ)
		used := st.Get("keep:rest") != ""
		if st.Truth(Eq(res[1], Nil())) != Y {
			// rejected
			ok := k == "Error" || none || (used && st.Is(Not(Eq(subErr, Nil())))) || star(st)
			c.must(e, st, in, ok, "rejected|"+k, "a path may be rejected although nothing is wrong with it (%s)", k)
			c.must(e, st, in, st.Is(Not(Eq(res[1], Nil()))), "rejected-err|"+k, "it is not known whether a path is rejected")
			return
		}
		if !c.must(e, st, in, k != "" && k != "Error", "accepted|"+k, "a lexeme that is no step of a plain path is accepted (%s)", k) {
			return
		}
		if used && !c.must(e, st, in, st.Is(Eq(subErr, Nil())), "sub-error|"+k, "a path is accepted although the rest of it was rejected (%s)", k) {
			return
		}
		end := k == "Identity" || k == "EOF"
		if !c.must(e, st, in, used != end, "more|"+k, "the rest of the path is not used, or something is read after its end (%s)", k) {
			return
		}
		b.n["builder:"+k]++
		if k == "DotChild" && !b.noStar(st, val) {
			b.wild = false
		}
		p := unwrap(res[0])
		fn := e.Load(st, FA(p, "f"), nil)
		if !c.must(e, st, in, fn != nil && (fn.op == OClosure || fn.op == OFn) && fn.fn != nil && fn.fn.Blocks != nil && st.rootFresh(p) != nil, "builder|"+k, "the builder of a path is %v", fn) {
			return
		}
		b.eval(e, st, k, fn, sub, val)
	}
	c.explore(f, r, nil, nil)
}

// noStar: the name is known not to be a wildcard.
func (b *builder) noStar(st *State, val *Term) bool {
	for t, v := range st.facts.b {
		if !v && t.op == OEq && t.has(val) && (t.args[0] == Str("*") || t.args[1] == Str("*")) {
			return true
		}
	}
	return false
}

// eval follows the builder made for a lexeme of kind k.
func (b *builder) eval(e1 *Engine, s1 *State, k string, fn, sub, val *Term) {
	c := b.c
	old := map[*Term]bool{}
	note := func(t *Term) {
		t.any(func(x *Term) bool {
			if x.op == OAlloc {
				old[x] = true
			}
			return false
		})
	}
	for a, v := range s1.mem {
		note(a)
		note(v)
	}
	note(fn)
	fresh := func(st *State, n *Term) bool {
		n = unwrap(n)
		return n != nil && n.op == OAlloc && !old[n]
	}
	var nodeT types.Type
	if p := b.c.P.tpkg("gopkg.in/yaml.v3"); p != nil {
		nodeT = p.Scope().Lookup("Node").Type()
	}
	ft := func(f string) types.Type {
		if nodeT == nil {
			return nil
		}
		return fieldType(nodeT, f)
	}
	content := func(e *Engine, st *State, n *Term) *Term {
		return e.list(st, e.Load(st, FA(n, "Content"), ft("Content")))
	}
	uses := func(st *State, n *Term) bool { return st.Get("use:"+ref(n)) != "" }
	var names *Term
	key := func(e *Engine, st *State, n *Term) *Term {
		// the text of a fresh key
		if !fresh(st, n) || !st.Is(EqInt(e.Load(st, FA(n, "Kind"), ft("Kind")), Int(kScal))) {
			return nil
		}
		if l := content(e, st, n); !isEmpty(l) && !l.isNil() {
			return nil
		}
		return e.Load(st, FA(n, "Value"), ft("Value"))
	}
	r := &Rule{Name: "build", KeepAll: true, Stop: b.isText}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if b.textCall(e, st, ev) {
			return
		}
		if ev.callee == nil && !ev.common.IsInvoke() {
			fv := e.val(st, ev.common.Value)
			if fv.op == OLD && fv.args[0] == FA(sub, "f") {
				ev.handled, ev.noHavoc = true, true
				ev.results = e.freshResults(st, ev.instr, "use", 1)
				st.Set("use:"+ref(ev.results[0]), "1")
				b.n["uses"]++
			}
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		root := st.rootFresh(addr)
		c.must(e, st, in, root != nil && !old[root], "writes|"+k, "using a path changes something that exists before")
	}
	var loopL *Loop
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if k != "BracketChild" || names == nil || len(st.frames) != 1 {
			return
		}
		switch ev.kind {
		case "enter":
			loopL = ev.l
			st.drop("use:")
			st.Set("keep:badnames", "")
		case "back":
			good := false
			for _, n := range nodesBuilt(st, old) {
				l := content(e, st, n)
				for _, in := range ev.l.header.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && isNodeList(ph.Type()) {
						if v := edgeVal(e, st, ph); v != nil {
							l = e.list(st, v)
						}
					}
				}
				p := parts(l)
				if len(p) == 1 && p[0].op == OElems && len(p[0].args) == 2 {
					p = append([]*Term{Elems()}, p...)
				}
				if len(p) != 2 || p[1].op != OElems || len(p[1].args) != 2 {
					continue
				}
				if p[0].op == OElems && len(p[0].args) > 0 || p[0].op == OCat {
					continue
				}
				kn := key(e, st, p[1].args[0])
				el := EA(names, ev.iter)
				if kn == LD(el, 0) && uses(st, p[1].args[1]) && inLoop(p[1].args[0], ev.l, ev.ctx) {
					good = true
				}
			}
			if !good {
				st.Set("keep:badnames", "1")
			}
			st.drop("use:")
		case "exit":
			if st.Get("keep:badnames") == "" && fullScan(st, ev.iter, names) == "fwd" {
				st.Set("keep:allnames", "1")
				for _, n := range nodesBuilt(st, old) {
					st.Set("keep:content", ref(content(e, st, n)))
				}
				for _, in := range ev.l.header.Instrs {
					if ph, ok := in.(*ssa.Phi); ok && isNodeList(ph.Type()) {
						st.Set("keep:content", ref(st.top().env[ph]))
					}
				}
			}
		}
	}
	_ = loopL
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["evaluated:"+k]++
		n := res[0]
		if !c.must(e, st, in, fresh(st, n), "fresh|"+k, "a path gives something that is not made for this use (%s)", k) {
			return
		}
		kind := e.Load(st, FA(n, "Kind"), ft("Kind"))
		is := func(v int64) bool { return st.Is(EqInt(kind, Int(v))) }
		l := content(e, st, n)
		value, isStr := e.Load(st, FA(n, "Value"), ft("Value")).isStr()
		switch k {
		case "Identity", "EOF":
			c.must(e, st, in, is(kScal) && isStr && value == "" && (l.isNil() || isEmpty(l)), "end", "the end of a path is not an empty scalar")
		case "Root":
			c.must(e, st, in, is(kDoc) && l.op == OElems && len(l.args) == 1 && uses(st, l.args[0]), "root", "the root of a path is not a document around the rest of the path: %v", l)
		case "DotChild", "UndottedChild":
			if !c.must(e, st, in, is(kMap) && l.op == OElems && len(l.args) == 2 && uses(st, l.args[1]), "child|"+k, "a child is not a map with one entry for the rest of the path: %v", l) {
				return
			}
			t := key(e, st, l.args[0])
			c.must(e, st, in, t != nil && b.childName(t, val, k), "name|"+k, "the name of a child is not the one in the query: %v", t)
		case "BracketChild":
			if !c.must(e, st, in, is(kMap), "bracket-kind", "bracket names do not give a map") {
				return
			}
			if names == nil {
				c.must(e, st, in, false, "names", "the names in brackets are not used")
				return
			}
			c.must(e, st, in, st.emptyList(names) || (st.Get("keep:allnames") != "" && (unref(st.Get("keep:content")) == l || unref(st.Get("keep:content")) == e.Load(st, FA(n, "Content"), nil))), "bracket", "the names in brackets are not each given an entry of its own, in order: %v", l)
		}
	}
	if k == "BracketChild" {
		// the list of names
		for _, a := range fn.args {
			v := a
			if a.op == OAlloc {
				if w, ok := s1.mem[a]; ok {
					v = w
				}
			}
			if v != sub && v != nil && v.op != OAlloc && v.any(func(x *Term) bool { return x == val }) {
				names = v
			}
		}
		if !c.must(e1, s1, nil, names != nil, "names", "the names in brackets are not used") {
			return
		}
		b.bracketText(names, val)
	}
	e := NewEngine(c.P, r)
	e.Run(fn.fn, nil, fn.args, func(st *State) {
		for a, v := range s1.mem {
			st.mem[a] = v
		}
		st.hvs = s1.hvs
		st.facts = s1.facts.clone()
	})
	c.collect(e, fn.fn)
}

// nodesBuilt: the maps built by the function being followed.
func nodesBuilt(st *State, old map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for a := range st.mem {
		if a.op == OFA && a.s == "Content" && a.args[0].op == OAlloc && !old[a.args[0]] && !seen[a.args[0]] {
			seen[a.args[0]] = true
			out = append(out, a.args[0])
		}
	}
	return out
}

// childName: t is the text of the lexeme without its dot, unescaped once.
func (b *builder) childName(t, val *Term, k string) bool {
	unesc, dot := 0, 0
	for t != val {
		if t.op != OCall || len(t.args) == 0 {
			return false
		}
		switch {
		case t.s == "strings.TrimPrefix" && t.args[1] == Str("."):
			dot++
		case t.s == "substr" && t.args[1] == Int(1) && t.args[2] == Call("strlen", t.args[0]):
			dot++
		case b.textFn(t.s) != nil && len(t.args) == 1:
			b.texts[b.textFn(t.s)] = "unescape"
			unesc++
		default:
			return false
		}
		t = t.args[0]
	}
	return unesc == 1 && (dot == 1 || k == "UndottedChild" && dot == 0)
}

// isText: a function on text that is judged on its own.
func (b *builder) isText(f *ssa.Function) bool {
	if f == nil || len(f.Params) == 0 || f.Signature.Results().Len() != 1 || !b.c.P.inRepo(f) || f.Parent() != nil {
		return false
	}
	for i, p := range f.Params {
		t, ok := p.Type().Underlying().(*types.Basic)
		if !ok || i == 0 && t.Kind() != types.String {
			return false
		}
	}
	rt := f.Signature.Results().At(0).Type()
	if _, basic := rt.Underlying().(*types.Basic); !basic && !isStringList(rt) {
		return false
	}
	for g := range b.c.P.reach(f) {
		if len(b.c.P.loops(g).loops) > 0 {
			return true
		}
	}
	return false
}

func (b *builder) textCall(e *Engine, st *State, ev *CallEv) bool {
	if !b.isText(ev.callee) {
		return false
	}
	ev.handled, ev.noHavoc = true, true
	ev.results = []*Term{Call(ev.name, ev.args...)}
	return true
}

func (b *builder) textFn(name string) *ssa.Function {
	for _, f := range b.c.P.PkgFuncs("builder") {
		if calleeName(f) == name {
			return f
		}
	}
	return nil
}

// bracketText: where the list of names comes from.
func (b *builder) bracketText(t, val *Term) {
	f := b.textFn(t.s)
	if t.op != OCall || f == nil || len(t.args) != 1 {
		b.c.Must(false, "bracket-names", "-", "the names in brackets are %v", t)
		return
	}
	b.texts[f] = "names"
	for x := t.args[0]; x != val; x = x.args[0] {
		ok := x.op == OCall && len(x.args) > 0
		if ok {
			switch x.s {
			case "strings.TrimSpace":
			case "strings.TrimPrefix":
				ok = x.args[1] == Str("[")
			case "strings.TrimSuffix":
				ok = x.args[1] == Str("]")
			case "substr":
			default:
				ok = false
			}
		}
		if !ok {
			b.c.Must(false, "bracket-text", "-", "the names in brackets are taken from %v", x)
			return
		}
	}
	// the brackets are gone
	s := t.args[0].String()
	b.c.Must(strings.Contains(s, `"["`) && strings.Contains(s, `"]"`) || strings.Contains(s, "substr"), "brackets", "-", "the names still have their brackets: %s", s)
}

// mapped follows a function that turns each element of a list into something of its own.
type mapped struct {
	c    *Check
	list *Term
	made func(st *State, x, el *Term) bool // x was made from the element, without error, in this iteration
	acc  *Acc
	cur  *Loop
	is   func(t types.Type) bool
}

func newMapped(c *Check, list *Term, is func(t types.Type) bool, made func(st *State, x, el *Term) bool) *mapped {
	m := &mapped{c: c, list: list, made: made, is: is}
	m.acc = &Acc{key: "mapped", is: func(ph *ssa.Phi) bool { return is(ph.Type()) }, lists: func(*State) []*Term { return []*Term{list} },
		match: func(st *State, l, idx, el, sfx *Term) bool {
			return sfx.op == OElems && len(sfx.args) == 1 && made(st, sfx.args[0], el)
		}}
	return m
}

func (m *mapped) onPhi(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
	m.cur = l
	m.acc.onPhi(e, st, ph, l, old, nw)
}

func (m *mapped) bases(st *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for v, t := range st.top().env {
		if t != nil && t.op == OAlloc && m.is(v.Type()) {
			seen[t] = true
			out = append(out, t)
		}
	}
	// kept in a variable
	for _, t := range st.mem {
		if t != nil && t.op == OAlloc && strings.HasPrefix(t.s, "slice") && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func (m *mapped) onLoop(e *Engine, st *State, ev LoopEv) {
	m.cur = ev.l
	m.acc.onLoop(e, st, ev)
	// a list kept in a variable
	for cell, v := range st.mem {
		if cell.op != OAlloc || cell.typ == nil || v == nil || !m.is(deref(cell.typ)) {
			continue
		}
		bad := "bad:cell:" + ref(ev.iter) + ref(cell)
		l := e.list(st, v)
		switch ev.kind {
		case "enter":
			st.Set(bad, "")
			if !isEmpty(l) {
				st.Set(bad, "1")
			}
		case "back":
			p := parts(l)
			last := p[len(p)-1]
			ok := last.op == OElems && len(last.args) == 1 && len(p) <= 2 && (len(p) == 1 || p[0].op != OElems)
			if !ok || !m.made(st, last.args[0], LD(EA(m.list, ev.iter), 0)) {
				st.Set(bad, "1")
			}
		case "exit":
			if st.Get(bad) == "" && fullScan(st, ev.iter, m.list) == "fwd" {
				st.Set("acc:mapped:"+ref(m.list)+":"+ref(v), "1")
			}
		}
	}
	for _, b := range m.bases(st) {
		st.forAll(ev, "placed"+ref(b), []*Term{m.list}, func(l, idx, el *Term) bool {
			return m.made(st, st.mem[EA(b, idx)], el)
		})
	}
}

// complete: l holds one thing per element, in order.
func (m *mapped) complete(e *Engine, st *State, l *Term) bool {
	for _, x := range []*Term{l, e.list(st, l)} {
		if m.acc.built(e, st, x, m.list) {
			return true
		}
		if st.all("placed"+ref(x), m.list) == "fwd" && (LenOf(x) == LenOf(m.list) || LenOf(e.list(st, x)) == LenOf(m.list) || st.Is(EqInt(LenOf(x), LenOf(m.list)))) {
			return true
		}
	}
	return false
}

func (b *builder) paths() {
	c, P := b.c, b.c.P
	np, nps, bps := c.fn("builder", "NewPath"), c.fn("builder", "NewPaths"), c.fn("builder", "(*Paths).BuildPaths")
	if np == nil || nps == nil || bps == nil {
		return
	}
	// one path
	src := Param(np.Params[0].Name(), np.Params[0].Type())
	pr, pe := Ext(Call("parsed"), 0), Ext(Call("parsed"), 1)
	r := &Rule{Name: "newpath", KeepAll: true, Stop: func(f *ssa.Function) bool { return f == b.step }}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee != b.step {
			return
		}
		b.n["parsed"]++
		ev.handled, ev.noHavoc = true, true
		ev.results = []*Term{pr, pe}
		st.Set("keep:parsed", "1")
		c.must(e, st, ev.instr, e.Load(st, FA(ev.args[0], "input"), types.Typ[types.String]) == src, "input", "the lexer does not get the query as it is: %v", e.Load(st, FA(ev.args[0], "input"), types.Typ[types.String]))
		for _, f := range []string{"start", "pos"} {
			v := e.Load(st, FA(ev.args[0], f), types.Typ[types.Int])
			c.must(e, st, ev.instr, isZero(v), "begin|"+f, "the lexer does not start at the beginning of the query")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		c.must(e, st, in, !(addr.op == OFA && addr.s == "f" && st.Get("keep:parsed") != ""), "replaced", "the builder of a path is replaced")
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.Get("keep:parsed") == "" || st.Truth(Eq(pe, Nil())) != Y {
			ok := st.Get("keep:parsed") != "" && (st.Is(Not(Eq(res[1], Nil()))) || unwrap(res[1]) == pe)
			c.must(e, st, in, ok, "one-error", "a query that was rejected gives a path, or one is rejected without being read")
			if st.Truth(Eq(pe, Nil())) == N || unwrap(res[1]) != pe {
				return
			}
		}
		if res[1] == pe {
			c.must(e, st, in, res[0] == pr, "one", "the path made from a query is not the one returned: %v", res[0])
			return
		}
		c.must(e, st, in, st.Is(Eq(res[1], Nil())) && res[0] == pr, "one", "the path made from a query is not the one returned: %v", res[0])
	}
	c.explore(np, r, nil, nil)
	c.least("queries parsed", b.n["parsed"], 1)

	// all paths
	ps := Param(nps.Params[0].Name(), nps.Params[0].Type())
	isPaths := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isPathPtr(s.Elem())
	}
	var m *mapped
	made := func(st *State, x, el *Term) bool {
		if x == nil || m.cur == nil || !inLoop(x, m.cur, st.top().ctx) {
			return false
		}
		err := unref(st.Get("err:" + ref(x)))
		return unref(st.Get("of:"+ref(x))) == el && (err == nil || st.Is(Eq(err, Nil())))
	}
	m = newMapped(c, ps, isPaths, made)
	r = &Rule{Name: "newpaths", KeepAll: true, Stop: func(f *ssa.Function) bool { return f == np }, OnPhi: m.onPhi}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		m.onLoop(e, st, ev)
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == np {
			b.n["newpath"]++
			ev.handled, ev.noHavoc = true, true
			ev.results = e.freshResults(st, ev.instr, "NewPath", 2)
			st.Set("of:"+ref(ev.results[0]), ref(ev.args[0])+" ")
			st.Set("err:"+ref(ev.results[0]), ref(ev.results[1])+" ")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if st.Truth(Eq(res[1], Nil())) != Y {
			ok := false
			for k := range st.kv {
				if strings.HasPrefix(k, "err:") {
					if err := unref(st.Get(k)); err != nil && st.Is(Not(Eq(err, Nil()))) {
						ok = true
					}
				}
			}
			c.must(e, st, in, ok, "paths-error", "queries may be rejected although each of them is accepted")
			return
		}
		l := e.Load(st, res[0], deref(nps.Signature.Results().At(0).Type()))
		c.must(e, st, in, m.complete(e, st, l), "paths", "the paths returned are not known to be those of all queries in their order: %v", e.list(st, l))
	}
	c.explore(nps, r, nil, nil)
	c.least("paths made", b.n["newpath"], 1)

	// building
	recv := Param(bps.Params[0].Name(), bps.Params[0].Type())
	list := LD(recv, 0)
	m = newMapped(c, list, isNodeList, made)
	r = &Rule{Name: "buildpaths", KeepAll: true, OnPhi: m.onPhi, Stop: func(f *ssa.Function) bool { return fnLabel(f) == "actions.MergeNode" }}
	r.OnLoop = m.onLoop
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		c.must(e, st, in, !(addr.op == OFA && addr.s == "f"), "kept", "what a path gives is kept for its next use")
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch {
		case ev.callee == nil && !ev.common.IsInvoke():
			fv := e.val(st, ev.common.Value)
			ev.handled, ev.noHavoc = true, true
			ev.results = e.freshResults(st, ev.instr, "use", 1)
			if fv.op == OLD && fv.args[0].op == OFA && fv.args[0].s == "f" {
				b.n["built"]++
				st.Set("of:"+ref(ev.results[0]), ref(fv.args[0].args[0])+" ")
			}
		case ev.callee != nil && fnLabel(ev.callee) == "actions.MergeNode":
			b.n["merged"]++
			l := ev.args[0]
			c.must(e, st, ev.instr, m.complete(e, st, l), "combined", "%v is merged, which is not known to be what all paths give in their order", e.list(st, l))
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, "merge", 1)
			st.Set("keep:merge", ref(ev.results[0])+" ")
			st.Set("keep:mlist", ref(l)+" ")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		merge, l := unref(st.Get("keep:merge")), unref(st.Get("keep:mlist"))
		if st.Truth(Eq(res[1], Nil())) != Y {
			ok := merge != nil && st.Is(Not(Eq(merge, Nil()))) || merge == nil && !st.someList(list)
			c.must(e, st, in, ok || unwrap(res[1]) == merge && merge != nil, "build-error", "building paths may fail although there is nothing wrong")
			return
		}
		if !c.must(e, st, in, merge != nil && st.Is(Eq(merge, Nil())), "unmerged", "the paths are not known to have been merged without error") {
			return
		}
		x := res[0]
		ok := x == e.Load(st, EA(l, Int(0)), nil) || x == e.Load(st, EA(e.list(st, l), Int(0)), nil) || x == LD(EA(e.list(st, l), Int(0)), x.n) || x == LD(EA(l, Int(0)), x.n)
		c.must(e, st, in, ok, "first", "building gives %v, which is not known to be what everything was merged into", x)
	}
	c.explore(bps, r, nil, nil)
	c.least("paths built", b.n["built"], 1)
	c.least("paths merged", b.n["merged"], 1)
	_ = P
}

// ---- functions on names

// carried lists the values a loop carries, by kind.
func carried(l *Loop) map[string][]*ssa.Phi {
	out := map[string][]*ssa.Phi{}
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := "other"
		switch t := ph.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case t.Kind() == types.String:
				k = "string"
			case t.Kind() == types.Bool:
				k = "bool"
			case t.Kind() == types.Int32:
				k = "rune"
			case t.Kind() == types.Int:
				k = "int"
			}
		case *types.Slice:
			if isString(t.Elem()) {
				k = "strings"
			}
		}
		out[k] = append(out[k], ph)
	}
	return out
}

// runeOf: the rune an iteration looks at.
func runeOf(e *Engine, st *State, l *Loop, ctx *Ctx, x *Term) *Term {
	for _, b := range l.header.Parent().Blocks {
		for _, in := range b.Instrs {
			if !l.blocks[b] {
				continue
			}
			if nx, ok := in.(*ssa.Next); ok && nx.IsString {
				return e.site(st, in, "val", 2)
			}
			if n, _ := callName(in); strings.HasPrefix(n, "utf8.DecodeRuneInString") {
				for _, ph := range carried(l)["int"] {
					return Ext(Call(n, Call("substr", x, phiTerm(ph, ctx), Call("strlen", x))), 0)
				}
			}
		}
	}
	return nil
}

func was(st *State, ph *ssa.Phi, ctx *Ctx) *Term {
	if t := st.top().env[ph]; t != nil {
		return t
	}
	return phiTerm(ph, ctx)
}

func boolStep(st *State, ph, v *Term) (flip, same bool) {
	switch {
	case v == ph:
		return false, true
	case v == Not(ph):
		return true, false
	}
	a, b := st.Truth(v), st.Truth(ph)
	if a == U || b == U {
		return false, false
	}
	return a != b, a == b
}

// runeLoop judges a loop over the characters of a text with the given rule, if it has the shape it is made for.
func (b *builder) runeLoop(f *ssa.Function, what string, shape map[string]int, step func(e *Engine, st *State, ch *Term, ph map[string][]*ssa.Phi, ctx *Ctx) string) {
	c := b.c
	x := Param(f.Params[0].Name(), f.Params[0].Type())
	seen, other := 0, 0
	r := &Rule{Name: "text", Stop: b.isText, KeepAll: true, Widen: func(*Loop) bool { return true }}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if len(st.frames) != 1 {
			return
		}
		// the first iteration is one of those that follow
		first := "keep:first:" + ref(ev.iter)
		if ev.kind == "enter" {
			st.Set(first, "1")
		}
		if ev.kind != "back" {
			return
		}
		if st.Get(first) != "" {
			st.Set(first, "")
			return
		}
		ph := carried(ev.l)
		for k, n := range shape {
			if len(ph[k]) != n {
				other++
				return
			}
		}
		ch := runeOf(e, st, ev.l, ev.ctx, x)
		if ch == nil {
			other++
			return
		}
		seen++
		if s := step(e, st, ch, ph, ev.ctx); s != "" {
			c.must(e, st, nil, s == "-", what, "%s", s)
		}
	}
	c.explore(f, r, nil, nil)
	if other > 0 || seen == 0 {
		c.notes = append(c.notes, fnLabel(f)+": not a loop over characters of the known form, its steps are not judged")
	}
}

func (b *builder) judgeTexts() {
	done := map[*ssa.Function]bool{}
	for {
		var f *ssa.Function
		var what string
		for g, k := range b.texts {
			if !done[g] {
				f, what = g, k
			}
		}
		if f == nil {
			break
		}
		done[f] = true
		switch what {
		case "names":
			b.names(f)
		case "unescape":
			b.n["unescape"]++
			b.runeLoop(f, "unescape", map[string]int{"string": 1, "bool": 1}, func(e *Engine, st *State, ch *Term, ph map[string][]*ssa.Phi, ctx *Ctx) string {
				s, esc := ph["string"][0], ph["bool"][0]
				old, was := was(st, s, ctx), was(st, esc, ctx)
				nw, now := edgeVal(e, st, s), edgeVal(e, st, esc)
				bs := st.Truth(EqInt(ch, Int('\\')))
				added := nw != old
				grown := nw.op == OConcat && len(nw.args) > 0 && nw.args[0] == old && nw.has(ch)
				if added && !grown && !(nw.has(ch) && nw.has(old)) {
					return "unescaping a name adds something else than its characters"
				}
				cur := st.Truth(was)
				after := st.Truth(now)
				if now == Not(was) && cur != U {
					after = Y
					if cur == Y {
						after = N
					}
				}
				if bs == U || bs == Y && cur == U || after == U {
					return ""
				}
				switch {
				case bs == Y && cur == Y:
					if !added || after != N {
						return "an escaped backslash is not kept as one"
					}
				case bs == Y:
					if added || after != Y {
						return "a backslash does not escape the next character"
					}
				default:
					if !added || after != N {
						return "a character of a name is lost, or escapes the next one"
					}
				}
				return "-"
			})
		case "balanced":
			if len(f.Params) != 2 {
				break
			}
			q := Param(f.Params[1].Name(), f.Params[1].Type())
			b.runeLoop(f, "balanced", map[string]int{"bool": 1, "rune": 1}, func(e *Engine, st *State, ch *Term, ph map[string][]*ssa.Phi, ctx *Ctx) string {
				bal, prev := ph["bool"][0], ph["rune"][0]
				flip, same := boolStep(st, was(st, bal, ctx), edgeVal(e, st, bal))
				isQ, esc := st.Truth(EqInt(ch, q)), st.Truth(EqInt(was(st, prev, ctx), Int('\\')))
				if edgeVal(e, st, prev) != ch {
					return "the character before is not remembered"
				}
				switch {
				case isQ == N && !same, isQ == Y && esc == Y && !same:
					return "another character counts as a quote"
				case isQ == Y && esc == N && !flip:
					return "a quote is not counted"
				}
				return "-"
			})
		}
	}
}

// names: splitting the text in brackets at the commas outside of quotes.
func (b *builder) names(f *ssa.Function) {
	c := b.c
	src := Param(f.Params[0].Name(), f.Params[0].Type())
	r := &Rule{Name: "names", Stop: b.isText, KeepAll: true, Widen: func(*Loop) bool { return true }}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) { b.textCall(e, st, ev) }
	half := false
	balanced := func(st *State, x *Term) tri {
		half = false
		res, q := Y, map[int64]bool{}
		for t, v := range st.facts.b {
			if t.op != OCall || len(t.args) != 2 || t.args[0] != x {
				continue
			}
			g := b.textFn(t.s)
			k, ok := t.args[1].isInt()
			if g == nil || !ok || k != '\'' && k != '"' {
				continue
			}
			b.texts[g] = "balanced"
			if !v {
				return N
			}
			q[k] = true
		}
		half = len(q) == 1
		if len(q) < 2 {
			return U
		}
		return res
	}
	n := map[string]int{}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind != "back" || len(st.frames) != 1 {
			return
		}
		ph := carried(ev.l)
		if len(ph["strings"]) != 1 {
			n["other"]++
			return
		}
		lp := ph["strings"][0]
		old := was(st, lp, ev.ctx)
		sfx, ok := tail(e.list(st, old), e.list(st, edgeVal(e, st, lp)))
		if !ok || sfx.op != OElems {
			n["other"]++
			return
		}
		if len(ph["string"]) == 1 {
			// pieces
			np := ph["string"][0]
			name, now := was(st, np, ev.ctx), edgeVal(e, st, np)
			split := Call("strings.Split", src, Str(","))
			el := LD(EA(split, ev.iter), 0)
			joined := Concat(Concat(name, Str(",")), el)
			n["pieces"]++
			open := st.Truth(Eq(name, Str("")))
			bal := balanced(st, el)
			if !c.must(e, st, nil, !half, "half", "only one kind of quotes is looked at to find the commas between names") {
				return
			}
			if open == U || bal == U {
				n["other"]++
				return
			}
			var good bool
			piece := func(t *Term) bool { return len(sfx.args) == 1 && sfx.args[0] == t }
			empty := func(t *Term) bool { s, ok := t.isStr(); return ok && s == "" || t == name && open == Y }
			same := func(a, b *Term) bool { return a == b || a.String() == b.String() }
			switch {
			case bal == Y && open == Y:
				good = piece(el) && empty(now)
			case bal == Y:
				good = len(sfx.args) == 0 && (now == joined || same(now, joined))
			case open == Y:
				good = len(sfx.args) == 0 && now == el
			default:
				good = len(sfx.args) == 1 && same(sfx.args[0], joined) && empty(now)
			}
			c.must(e, st, nil, good, "split", "the names in brackets are not split at the commas outside of quotes")
			return
		}
		if len(ph["string"]) == 0 {
			n["unquoted"]++
			if !c.must(e, st, nil, len(sfx.args) == 1, "each", "a name in brackets is lost or added") {
				return
			}
			x := sfx.args[0]
			unesc := 0
			for x.op == OCall && len(x.args) == 1 && b.textFn(x.s) != nil {
				b.texts[b.textFn(x.s)] = "unescape"
				unesc++
				x = x.args[0]
			}
			c.must(e, st, nil, unesc == 1, "unescape-once", "a name in brackets is unescaped %d times", unesc)
			q := ""
			for x.op == OCall && len(x.args) == 2 && (x.s == "strings.TrimPrefix" || x.s == "strings.TrimSuffix") {
				s, _ := x.args[1].isStr()
				if q != "" && q != s {
					q = "?"
					break
				}
				q = s
				x = x.args[0]
			}
			if x.op == OCall && x.s == "substr" {
				n["other"]++
				return
			}
			c.must(e, st, nil, q == "'" || q == `"`, "unquote", "the quotes of a name in brackets are not removed as they are written: %v", sfx.args[0])
			single := st.Truth(Call("strings.HasPrefix", x, Str("'")))
			dbl := st.Truth(Call("strings.HasPrefix", x, Str(`"`)))
			c.must(e, st, nil, !(q == "'" && (single == N || dbl == Y)) && !(q == `"` && (single == Y || dbl == N)), "which-quotes", "other quotes than those of the name are removed")
		}
	}
	c.explore(f, r, nil, nil)
	if n["other"] > 0 {
		c.notes = append(c.notes, fnLabel(f)+": some steps have a form that is not judged")
	}
	b.n["names"] += n["pieces"] + n["unquoted"]
}
