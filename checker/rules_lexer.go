package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const lexerT = "*builder.lexer"

func isLexer(t types.Type) bool { return typeName(t) == lexerT }

// scanners: the functions of the lexer that take the characters (or the quote) to stop at and report success.
func scanner(f *ssa.Function) (until, quoted bool) {
	s := f.Signature
	if s.Results().Len() != 1 || len(f.Params) != 2 || !isLexer(f.Params[0].Type()) {
		return
	}
	if b, ok := s.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return
	}
	if sl, ok := f.Params[1].Type().Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
			return true, false
		}
	}
	return false, isString(f.Params[1].Type())
}

// isTokens: looks for texts with spaces between them.
func isTokens(g *ssa.Function) bool {
	s := g.Signature
	return s.Results().Len() == 1 && len(g.Params) == 2 && isLexer(g.Params[0].Type()) && isStringList(g.Params[1].Type()) && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool])
}

// isConsume: skips a text that is there.
func isConsume(P *Program, g *ssa.Function) bool {
	return g.Signature.Results().Len() == 0 && len(g.Params) == 2 && isLexer(g.Params[0].Type()) && isString(g.Params[1].Type()) && !sendsLexeme(P, g)
}

func (P *Program) storesPos(f *ssa.Function) bool {
	for g := range P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isLexer(fa.X.Type()) && fieldName(deref(fa.X.Type()), fa.Field) == "pos" {
						return true
					}
				}
			}
		}
	}
	return false
}

func sendsLexeme(P *Program, f *ssa.Function) bool {
	for g := range P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Send); ok && isLexeme(s.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// stateFns: the functions that are states of the lexer.
func (P *Program) stateFns() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.PkgFuncs("builder") {
		s := f.Signature
		if f.Parent() == nil && s.Recv() == nil && len(f.Params) == 1 && isLexer(f.Params[0].Type()) && s.Results().Len() == 1 && typeName(s.Results().At(0).Type()) == "builder.stateFn" {
			out = append(out, f)
		}
	}
	return out
}

func (b *builder) lexer() {
	c, P := b.c, b.c.P
	states := P.stateFns()
	c.least("states of the lexer", len(states), 2)
	quoted := map[*ssa.Function]bool{}
	until := map[*ssa.Function]bool{}
	tokens := map[*ssa.Function]bool{}
	for _, f := range states {
		b.state(f, until, quoted, tokens)
	}
	for _, k := range []string{"Identity", "Root", "DotChild", "BracketChild", "Error"} {
		c.least("lexemes sent of kind "+k, b.n["send:"+k], 1)
	}
	for _, f := range sortedFns(quoted) {
		b.quoted(f)
	}
	for _, f := range sortedFns(tokens) {
		b.tokens(f)
	}
	for _, f := range sortedFns(until) {
		b.until(f)
	}
	for _, f := range P.PkgFuncs("builder") {
		if f.Signature.Results().Len() == 1 && isLexeme(f.Signature.Results().At(0).Type()) {
			b.n["next"]++
			b.nextLexeme(f)
		}
	}
	c.least("readers of lexemes", b.n["next"], 1)
}

func (b *builder) state(f *ssa.Function, until, quoted, tokens map[*ssa.Function]bool) {
	c, P := b.c, b.c.P
	l := Param(f.Params[0].Name(), f.Params[0].Type())
	P0 := Param("pos", types.Typ[types.Int])
	intT := types.Typ[types.Int]
	input := LD(FA(l, "input"), 0)
	r := &Rule{Name: "lexer", KeepAll: true}
	r.Stop = func(g *ssa.Function) bool {
		u, q := scanner(g)
		return u || q && sendsLexeme(P, g) || isTokens(g) || isConsume(P, g)
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == nil {
			return
		}
		switch {
		case isConsume(P, ev.callee):
			ev.handled, ev.noHavoc = true, true
			pos := e.Load(st, FA(l, "pos"), intT)
			if s, ok := ev.args[1].isStr(); ok {
				pos = AddN(pos, int64(len(s)))
			} else {
				pos = Add(pos, Call("strlen", ev.args[1]), 1)
			}
			e.Store(st, FA(l, "pos"), pos, nil)
			return
		case isTokens(ev.callee):
			ev.handled, ev.noHavoc = true, true
			ev.results = e.freshResults(st, ev.instr, ev.name, 1)
			tokens[ev.callee] = true
			list := e.list(st, ev.args[1])
			if !P.storesPos(ev.callee) {
				if list.op == OElems && len(list.args) > 0 {
					if q := list.args[len(list.args)-1]; q == Str("'") || q == Str(`"`) {
						st.Set("keep:peek:"+ref(ev.results[0]), ref(ev.results[0])+" ")
					}
				}
				return
			}
			p := e.site(st, ev.instr, "pos", 7)
			st.Set("keep:before:"+ref(ev.results[0]), ref(e.Load(st, FA(l, "pos"), intT))+" ")
			e.Store(st, FA(l, "pos"), p, nil)
			if list.op == OElems && len(list.args) == 1 {
				st.Set("keep:lastres", ref(ev.results[0])+" ")
				st.Set("keep:last", ref(list.args[0])+" ")
				st.Set("keep:lastpos", ref(p)+" ")
			}
			return
		}
		u, q := scanner(ev.callee)
		if !u && !(q && sendsLexeme(P, ev.callee)) {
			return
		}
		ev.handled, ev.noHavoc = true, true
		ev.results = e.freshResults(st, ev.instr, ev.name, 1)
		e.Store(st, FA(l, "pos"), e.site(st, ev.instr, "pos", 7), nil)
		e.Store(st, FA(l, "width"), e.site(st, ev.instr, "width", 8), nil)
		if u {
			until[ev.callee] = true
			st.Set("keep:until", ref(ev.results[0])+" ")
			has := map[int64]bool{}
			list := e.list(st, ev.args[1])
			ok := list.op == OElems
			if ok {
				for _, x := range list.args {
					if v, is := x.isInt(); is {
						has[v] = true
					}
				}
			}
			b.n["exceptions"]++
			for _, x := range []rune{'.', '[', '~'} {
				c.must(e, st, ev.instr, has[int64(x)], "special|"+string(x), "a child name may contain %q, which starts another step", x)
			}
			if !b.wild {
				c.must(e, st, ev.instr, has['*'], "special|*", "a wildcard is taken for a child name")
			}
			return
		}
		quoted[ev.callee] = true
		isQuote := st.Get("keep:isquote") != ""
		st.Set("keep:isquote", "")
		for _, p := range st.listed("keep:peek:") {
			if st.Is(p) {
				isQuote = true
			}
		}
		st.drop("keep:peek:")
		if v, ok := ev.args[1].isStr(); ok && (v == "'" || v == `"`) {
			isQuote = true
		}
		c.must(e, st, ev.instr, isQuote, "quote", "something other than a quote is taken for the start of a name")
		st.Set("keep:quoted", ref(ev.results[0])+" ")
		st.Set("keep:quote", ref(ev.args[1])+" ")
	}
	r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
		if k := "keep:before:" + ref(atom); st.Get(k) != "" {
			if p := unref(st.Get(k)); p != nil && !val {
				e.Store(st, FA(l, "pos"), p, nil)
			}
			st.Set(k, "")
		}
	}
	pre := func(st *State, at *Term, what string) bool {
		// the input at this position is known to start with what
		for t, v := range st.facts.b {
			if !v || t.op != OCall {
				continue
			}
			if t.s == "strings.HasPrefix" && t.args[1] == Str(what) {
				x := t.args[0]
				if x.op == OCall && x.s == "substr" && x.args[0] == input && x.args[1] == at {
					return true
				}
			}
		}
		return false
	}
	empty := func(e *Engine, st *State, at *Term) bool { return st.Truth(Lt(at, Call("strlen", input))) == N }
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if op != "send" || args[1] == nil {
			return
		}
		s, ok := in.(*ssa.Send)
		if !ok || !isLexeme(s.X.Type()) {
			return
		}
		x := args[1]
		typ, val := FieldOf(x, "typ", intT), FieldOf(x, "val", types.Typ[types.String])
		k, _ := b.kind(st, typ)
		b.n["send:"+k]++
		if !c.must(e, st, in, k != "", "kind", "a lexeme of an unknown kind is sent: %v", typ) {
			return
		}
		if k == "Error" {
			st.Set("keep:error", "1")
			return
		}
		start, pos := e.Load(st, FA(l, "start"), intT), e.Load(st, FA(l, "pos"), intT)
		text := Call("substr", input, start, pos)
		own := val == text
		switch k {
		case "Identity", "EOF":
			st.Set("keep:end", "1")
			c.must(e, st, in, empty(e, st, pos) || st.Get("keep:empty") != "", "end|"+k, "the path ends although the query does not")
		case "Root":
			if s, ok := val.isStr(); ok {
				c.must(e, st, in, s == "$" && start == P0 && pos == P0, "implicit-root", "an implicit root is sent although something was read")
				return
			}
			c.must(e, st, in, own && start == P0, "text|"+k, "the lexeme holds %v", val)
		case "DotChild", "UndottedChild", "BracketChild":
			c.must(e, st, in, own && start == P0, "text|"+k, "the lexeme holds %v, not what was read since the one before", val)
			if k == "BracketChild" {
				q := unref(st.Get("keep:quoted"))
				ok := q == nil && st.Get("keep:quotedbefore") != "" || q != nil && st.Is(q)
				c.must(e, st, in, ok, "quoted", "names in brackets are accepted without being quoted")
				closed := unref(st.Get("keep:last")) == Str("]") && unref(st.Get("keep:lastpos")) == pos && st.Is(unref(st.Get("keep:lastres")))
				c.must(e, st, in, closed, "closed", "names in brackets are accepted without a closing bracket")
				return
			}
			u := unref(st.Get("keep:until"))
			c.must(e, st, in, u != nil && st.Is(u), "name|"+k, "a child name may be empty")
			if k == "DotChild" {
				c.must(e, st, in, pre(st, P0, "."), "dot", "a child is accepted without a dot")
			} else {
				c.must(e, st, in, st.Is(EqInt(LD(FA(l, "lastEmittedLexemeType"), 0), Int(b.typ["EOF"]))), "undotted", "a child without a dot is accepted after the first step")
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind != "back" {
			return
		}
		for _, p := range st.listed("keep:peek:") {
			if st.Is(p) && inLoop(p, ev.l, ev.ctx) {
				st.Set("keep:isquote", "1")
			}
		}
		if q := unref(st.Get("keep:quoted")); q != nil && inLoop(q, ev.l, ev.ctx) {
			c.must(e, st, nil, st.Is(q), "quoted-each", "names in brackets are accepted without being quoted")
			st.Set("keep:quoted", "")
			st.Set("keep:quotedbefore", "1")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["states"]++
		start, pos := e.Load(st, FA(l, "start"), intT), e.Load(st, FA(l, "pos"), intT)
		if st.Is(Eq(res[0], Nil())) {
			q := unref(st.Get("keep:quoted"))
			c.must(e, st, in, st.Get("keep:error") != "" || st.Get("keep:end") != "" || q != nil && st.IsNot(q), "stops", "the lexer stops without an error before the end of the query")
			return
		}
		if st.Get("keep:error") != "" {
			return
		}
		ok := start == pos || pos == AddN(P0, 0) && start == P0
		c.must(e, st, in, ok, "invariant", "the next state starts with something already read (%v, %v)", start, pos)
	}
	c.explore(f, r, nil, func(st *State) {
		st.mem[FA(l, "start")] = P0
		st.mem[FA(l, "pos")] = P0
	})
}

// quoted: a quoted name ends at the first quote that is not escaped.
func (b *builder) quoted(f *ssa.Function) {
	c := b.c
	l := Param(f.Params[0].Name(), f.Params[0].Type())
	quote := Param(f.Params[1].Name(), f.Params[1].Type())
	intT := types.Typ[types.Int]
	input := LD(FA(l, "input"), 0)
	at := func(st *State, pos, what *Term) tri {
		return st.Truth(Call("strings.HasPrefix", Call("substr", input, pos, Call("strlen", input)), what))
	}
	r := &Rule{Name: "quoted", KeepAll: true}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if s, ok := in.(*ssa.Send); ok && op == "send" && isLexeme(s.X.Type()) {
			k, _ := b.kind(st, FieldOf(args[1], "typ", intT))
			c.must(e, st, in, k == "Error", "in-quotes", "a lexeme is sent inside of quotes")
			st.Set("keep:error", "1")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["quoted"]++
		switch st.Truth(res[0]) {
		case Y:
			pos := e.Load(st, FA(l, "pos"), intT)
			c.must(e, st, in, at(st, pos, quote) == Y, "ends-at-quote", "a quoted name may end where there is no quote")
			c.must(e, st, in, st.Get("keep:error") == "", "error-success", "an error inside of quotes is taken for success")
		case N:
			c.must(e, st, in, st.Get("keep:error") != "", "silent", "a name in quotes that does not end gives no error")
		default:
			c.must(e, st, in, false, "unknown", "it is not known what reading a quoted name gives: %v", res[0])
		}
	}
	c.explore(f, r, nil, nil)
	c.least("ways through quoted names", b.n["quoted"], 2)
}

// until: the name ends at one of the given characters, and success means that there was something before.
func (b *builder) until(f *ssa.Function) {
	c := b.c
	l := Param(f.Params[0].Name(), f.Params[0].Type())
	list := Param(f.Params[1].Name(), f.Params[1].Type())
	r := &Rule{Name: "until", KeepAll: true}
	n := 0
	isNext := func(g *ssa.Function) bool {
		s := g.Signature
		if s.Results().Len() != 1 || len(g.Params) != 1 || !isLexer(g.Params[0].Type()) {
			return false
		}
		bt, ok := s.Results().At(0).Type().Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Int32
	}
	r.Stop = isNext
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee != nil && isNext(ev.callee) {
			n++
			ev.handled, ev.noHavoc = true, true
			ev.results = e.freshResults(st, ev.instr, "rune", 1)
			e.Store(st, FA(l, "pos"), e.site(st, ev.instr, "pos", 7), nil)
			e.Store(st, FA(l, "width"), e.site(st, ev.instr, "width", 8), nil)
			st.Set("keep:rune", ref(ev.results[0])+" ")
			st.Set("keep:pos", ref(e.Load(st, FA(l, "pos"), nil))+" ")
		}
	}
	// found: the rune is known to be in the list, or to be the end
	member := func(st *State, x *Term) bool {
		if st.Is(EqInt(x, Int(-1))) {
			return true
		}
		for t, v := range st.facts.b {
			switch {
			case !v:
			case t.op == OEq && (t.args[0] == x || t.args[1] == x):
				o := t.args[0]
				if o == x {
					o = t.args[1]
				}
				if o.any(func(y *Term) bool { return y == list }) {
					return true
				}
			case t.op == OCall && strings.HasPrefix(t.s, "slices.Contains") && t.has(x) && t.has(list):
				return true
			}
		}
		// compared as numbers
		for _, q := range st.factTerms() {
			if q.op == OLD && q.has(list) && st.Is(EqInt(q, x)) {
				return true
			}
		}
		return false
	}
	var outer *Loop
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind == "back" && st.Get("keep:rune") != "" {
			if outer == nil || len(ev.l.blocks) > len(outer.blocks) {
				outer = ev.l
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["until"]++
		x := unref(st.Get("keep:rune"))
		if !c.must(e, st, in, x != nil, "reads", "a child name ends without looking at the query") {
			return
		}
		c.must(e, st, in, member(st, x), "stop", "a child name may end at another character")
		pos, w := unref(st.Get("keep:pos")), e.Load(st, FA(l, "width"), nil)
		c.must(e, st, in, e.Load(st, FA(l, "pos"), nil) == Add(pos, w, -1), "unread", "the character a child name ends at is skipped")
	}
	c.explore(f, r, nil, nil)
	c.least("characters of child names", n, 1)
	b.consumedFlag(f)
}

// consumedFlag: success is false before the first and true after every character of the name.
func (b *builder) consumedFlag(f *ssa.Function) {
	c, P := b.c, b.c.P
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			ph, ok := ret.Results[0].(*ssa.Phi)
			if !ok {
				if k, is := ret.Results[0].(*ssa.Const); is {
					c.Must(false, "flag-const", P.ipos(in), "whether a child name has characters is always reported as %s", k.Value)
				}
				continue
			}
			back := false
			for i, e := range ph.Edges {
				k, is := e.(*ssa.Const)
				if !is || k.Value == nil {
					continue
				}
				first := !ph.Block().Dominates(ph.Block().Preds[i])
				b.n["flag"]++
				v := k.Value.String() == "true"
				if !first {
					back = true
				}
				c.Must(v == !first, "flag", P.ipos(in), "whether a child name has characters is reported wrongly")
			}
			_ = back
		}
	}
}

// nextLexeme gives the lexemes in the order they were sent and the end only after the last state.
func (b *builder) nextLexeme(f *ssa.Function) {
	c := b.c
	l := Param(f.Params[0].Name(), f.Params[0].Type())
	r := &Rule{Name: "next", KeepAll: true}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == nil && !ev.common.IsInvoke() {
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, "state", 1)
			st.Set("keep:ran", ref(ev.results[0])+" ")
			fv := e.val(st, ev.common.Value)
			c.must(e, st, ev.instr, fv == e.Load(st, FA(l, "state"), nil), "state", "another state than the current one is run")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, v *Term, in ssa.Instruction) {
		if addr == FA(l, "state") {
			c.must(e, st, in, v == unref(st.Get("keep:ran")), "next-state", "the lexer does not continue with the state given: %v", v)
			st.Set("keep:ran", "")
		}
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if op == "recv" {
			c.must(e, st, in, st.Get("keep:item") == "", "twice", "more than one lexeme is taken")
			st.Set("keep:item", "1")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind == "back" {
			c.must(e, st, nil, st.Get("keep:ran") == "", "forgotten", "the next state is forgotten")
			c.must(e, st, nil, st.Get("keep:item") == "", "dropped", "a lexeme is dropped")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["lexemes"]++
		if st.Get("keep:item") != "" {
			x := res[0]
			ok := x.any(func(t *Term) bool {
				return t.op == OSite && (strings.Contains(t.s, "recv"))
			})
			c.must(e, st, in, ok, "item", "the lexeme returned is not the one sent: %v", x)
			return
		}
		k, _ := b.kind(st, FieldOf(res[0], "typ", types.Typ[types.Int]))
		c.must(e, st, in, k == "EOF" && st.Is(Eq(e.Load(st, FA(l, "state"), nil), Nil())), "eof", "the end of the query is reported before the last state: %v", res[0])
	}
	c.explore(f, r, nil, nil)
	c.least("lexemes returned", b.n["lexemes"], 2)
}

// tokens: success means that each of the texts was found, and the position is behind the last one.
func (b *builder) tokens(f *ssa.Function) {
	c := b.c
	l := Param(f.Params[0].Name(), f.Params[0].Type())
	list := Param(f.Params[1].Name(), f.Params[1].Type())
	intT := types.Typ[types.Int]
	input := LD(FA(l, "input"), 0)
	moves := c.P.storesPos(f)
	r := &Rule{Name: "tokens", KeepAll: true}
	var eng *Engine
	found := func(st *State, el *Term) bool {
		e := eng
		for t, v := range st.facts.b {
			if !v || t.op != OCall || t.s != "strings.HasPrefix" || t.args[1] != el {
				continue
			}
			x := t.args[0]
			if x.op != OCall || x.s != "substr" || x.args[0] != input {
				continue
			}
			end := Add(x.args[1], Call("strlen", el), 1)
			// carried to the next text
			if e.Load(st, FA(l, "pos"), intT) == end {
				return true
			}
			for lp := range st.top().loops {
				for _, in := range lp.header.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						if types.Identical(ph.Type().Underlying(), intT) && edgeVal(e, st, ph) == end {
							return true
						}
					}
				}
			}
		}
		return false
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		eng = e
		if len(st.frames) == 1 {
			st.forAll(ev, "found", []*Term{list}, func(_, idx, el *Term) bool { return found(st, el) })
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		b.n["tokens"]++
		switch st.Truth(res[0]) {
		case Y:
			c.must(e, st, in, st.all("found", list) == "fwd" || st.emptyList(list), "tokens", "something is taken for found that was not looked for")
			if moves {
				_, ok := st.mem[FA(l, "pos")]
				c.must(e, st, in, ok, "tokens-pos", "what was found is not skipped")
			}
		case N:
			pos := e.Load(st, FA(l, "pos"), intT)
			c.must(e, st, in, pos == LD(FA(l, "pos"), 0), "tokens-back", "the position changes although nothing was found")
		default:
			c.must(e, st, in, false, "tokens-unknown", "it is not known whether something was found")
		}
	}
	c.explore(f, r, nil, nil)
}
