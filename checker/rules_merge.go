package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The format markers and the datum each of them stands for.
var markerOf = map[string]string{"value": "%v", "line": "%l", "head": "%h", "foot": "%f", "key": "%k"}
var dataKinds = []string{"value", "line", "head", "foot", "key"}

// fmtter describes a function that fills in format markers.
type fmtter struct {
	ok     bool
	why    string
	src    *Term
	data   map[string]*Term // by kind, in terms of the parameters
	params []*Term
}

// mergeCtx holds what is known about the helpers of the actions package.
type mergeCtx struct {
	c     *Check
	D     *ssa.Function    // the function substituting markers
	table map[string]*Term // datum kind -> term over D's parameters
	dpar  []*Term          // D's symbolic arguments
	fmts  map[string]*fmtter
	preds map[string]bool
	bad   string
	keys  int
}

func (c *Check) mergeCtx() *mergeCtx {
	if c.P.mc != nil {
		return c.P.mc
	}
	m := &mergeCtx{c: c, fmts: map[string]*fmtter{}, preds: map[string]bool{}}
	c.P.mc = m
	m.findD()
	return m
}

// findD locates the function that substitutes markers: the innermost function returning a string on the call chain to the regular expression search.
func (m *mergeCtx) findD() {
	P := m.c.P
	fns := P.PkgFuncs("actions")
	callers := map[*ssa.Function][]*ssa.Function{}
	var seeds []*ssa.Function
	for _, f := range fns {
		if f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				n := calleeName(g)
				if strings.HasPrefix(n, "(*regexp.Regexp).Find") || strings.HasPrefix(n, "(*regexp.Regexp).ReplaceAll") {
					seeds = append(seeds, f)
				}
				if P.inRepo(g) {
					callers[g] = append(callers[g], f)
				}
			}
		}
	}
	if len(seeds) == 0 {
		m.bad = "no function of package actions searches for format markers with a regular expression"
		return
	}
	f := seeds[0]
	for i := 0; i < 5; i++ {
		sig := f.Signature
		if f.Parent() == nil && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) && (sig.Params().Len() >= 2) {
			m.D = f
			break
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		if len(callers[f]) == 0 {
			break
		}
		f = callers[f][0]
	}
	if m.D == nil {
		m.bad = "the function substituting the format markers was not found"
	}
}

// dArgs builds symbolic arguments for D given the number of data values.
func symArgs(f *ssa.Function, n int) (args, flat []*Term, init func(*State)) {
	var lists [][]*Term
	var arrs []*Term
	mkList := func(l []*Term, et types.Type) *Term {
		a := T.mk(Term{op: OAlloc, s: "array", n: int64(len(l)), ctx: T.Ctx(nil, nil, f), typ: types.NewPointer(types.NewArray(et, int64(len(l))))})
		arrs, lists = append(arrs, a), append(lists, l)
		return a
	}
	for i, p := range f.Params {
		if f.Signature.Variadic() && i == len(f.Params)-1 {
			et := p.Type().Underlying().(*types.Slice).Elem()
			var l []*Term
			for len(flat) < n {
				t := Param(f.Name()+"#"+string(rune('a'+len(flat))), strType(et))
				flat = append(flat, t)
				l = append(l, boxed(t, et))
			}
			args = append(args, mkList(l, et))
			continue
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && i > 0 {
			var l []*Term
			for len(flat) < n {
				t := Param(f.Name()+"#"+string(rune('a'+len(flat))), strType(sl.Elem()))
				flat = append(flat, t)
				l = append(l, boxed(t, sl.Elem()))
			}
			args = append(args, mkList(l, sl.Elem()))
			continue
		}
		t := Param(f.Name()+"#"+string(rune('a'+len(flat))), p.Type())
		args = append(args, t)
		flat = append(flat, t)
	}
	return args, flat, func(st *State) {
		for i, a := range arrs {
			for j, x := range lists[i] {
				st.mem[EA(a, Int(int64(j)))] = x
			}
		}
	}
}

func boxed(t *Term, et types.Type) *Term {
	if _, ok := et.Underlying().(*types.Interface); ok {
		return T.mk(Term{op: OIface, s: "string", args: []*Term{t}, typ: types.Typ[types.String]})
	}
	return t
}

// flatArgs lists the arguments with the elements of literal lists in place of the lists.
func flatArgs(e *Engine, st *State, args []*Term) []*Term {
	var l []*Term
	for _, a := range args {
		if e != nil {
			a = e.list(st, a)
		}
		if a.op == OElems {
			for _, x := range a.args {
				l = append(l, unwrap(x))
			}
		} else {
			l = append(l, unwrap(a))
		}
	}
	return l
}

func strType(t types.Type) types.Type {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return types.Typ[types.String]
	}
	return t
}

// strip removes the wrappers that take every format marker out of a text.
func strip(t *Term) (*Term, bool) {
	got := map[string]bool{}
	for {
		if t.op == OCall && t.s == "strings.ReplaceAll" {
			a, ok1 := t.args[1].isStr()
			b, ok2 := t.args[2].isStr()
			if ok1 && ok2 && b == "" {
				got[a] = true
				t = t.args[0]
				continue
			}
		}
		if t.op == OCall && t.s == "(*strings.Replacer).Replace" && t.args[0].op == OCall && t.args[0].s == "strings.NewReplacer" && t.args[0].args[0].op == OElems {
			l := t.args[0].args[0].args
			ok := len(l)%2 == 0
			for i := 0; i+1 < len(l) && ok; i += 2 {
				a, ok1 := l[i].isStr()
				b, ok2 := l[i+1].isStr()
				if !ok1 || !ok2 || b != "" {
					ok = false
					break
				}
				got[a] = true
			}
			if ok {
				t = t.args[1]
				continue
			}
		}
		break
	}
	for _, k := range dataKinds {
		if !got[markerOf[k]] {
			return t, false
		}
	}
	return t, true
}

// fmtter analyses the formatting function named name with nargs flattened arguments.
func (m *mergeCtx) fmtter(name string, nargs int) *fmtter {
	if f := m.fmts[name]; f != nil {
		return f
	}
	r := &fmtter{}
	m.fmts[name] = r
	fn := m.c.P.byName(name)
	if fn == nil || m.D == nil {
		r.why = "unknown function " + name
		return r
	}
	if !m.c.P.reaches(fn, m.D) {
		r.why = name + " does not fill in format markers"
		return r
	}
	args, flat, init := symArgs(fn, nargs)
	r.params = flat
	if m.table == nil {
		m.substitution(m.c)
	}
	rule := &Rule{Name: "fmt", Stop: func(f *ssa.Function) bool { return f == m.D }}
	rule.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == m.D {
			ev.handled = true
			ev.results = []*Term{Call("FMT", flatArgs(e, st, ev.args)...)}
		}
	}
	n := 0
	rule.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		n++
		t := res[0]
		if t.op == OCall && t.s == "FMT" {
			if r.src == nil {
				r.src = t
			} else if r.src != t {
				r.why = name + " formats in different ways"
			}
			return
		}
		// without any marker the text may be returned as it is
		if t == flat[0] && st.IsNot(Call("strings.Contains", t, Str("%"))) {
			return
		}
		r.why = name + " returns " + t.String()
	}
	if fn == m.D {
		r.src = Call("FMT", flat...)
	} else {
		eng := NewEngine(m.c.P, rule)
		eng.Run(fn, args, nil, init)
		m.c.collect(eng, fn)
	}
	if r.why != "" || r.src == nil {
		if r.why == "" {
			r.why = name + " never formats"
		}
		return r
	}
	src, data, why := m.fromFMT(r.src)
	if why != "" {
		r.why = why
		return r
	}
	r.src, r.data, r.ok = src, data, true
	return r
}

// fromFMT splits FMT(src, values...) into the source and the data by kind.
func (m *mergeCtx) fromFMT(t *Term) (*Term, map[string]*Term, string) {
	if m.table == nil {
		m.substitution(m.c)
	}
	if len(t.args) != len(m.dpar) {
		return nil, nil, "marker data has an unexpected shape"
	}
	sub := func(x *Term) *Term { return substAll(x, m.dpar, t.args) }
	data := map[string]*Term{}
	for k, v := range m.table {
		b := sub(v)
		if s, ok := b.isStr(); ok {
			if strings.Contains(s, "%") {
				return nil, nil, "marker data contains a marker"
			}
			data[k] = b
			continue
		}
		x, ok := strip(b)
		if !ok {
			// recorded as it is: the markers of the data are not taken out
			data[k] = Call("RAW", x)
			continue
		}
		data[k] = x
	}
	return sub(m.dpar[0]), data, ""
}

func substAll(x *Term, from, to []*Term) *Term {
	// simultaneous substitution through unique placeholders
	var ph []*Term
	for i := range from {
		p := T.mk(Term{op: OParam, s: "subst", n: int64(i)})
		ph = append(ph, p)
		x = x.subst(from[i], p)
	}
	for i := range from {
		x = x.subst(ph[i], to[i])
	}
	return x
}

// fill describes a formatted text: its source and the data of the markers.
func (m *mergeCtx) fill(t *Term) (src *Term, data map[string]*Term, why string) {
	if t.op != OCall {
		return nil, nil, "is not formatted"
	}
	if t.s == "FMT" {
		return m.fromFMT(t)
	}
	flat := flatArgs(nil, nil, t.args)
	f := m.fmtter(t.s, len(flat))
	if !f.ok {
		return nil, nil, f.why
	}
	if len(flat) != len(f.params) {
		return nil, nil, "has unexpected data"
	}
	data = map[string]*Term{}
	for k, v := range f.data {
		x := substAll(v, f.params, flat)
		// constants need no stripping
		data[k] = x
	}
	return substAll(f.src, f.params, flat), data, ""
}

// markerPred tells whether name is a function telling that a text contains a format marker.
func (m *mergeCtx) markerPred(name string) bool {
	if v, ok := m.preds[name]; ok {
		return v
	}
	m.preds[name] = false
	fn := m.c.P.byName(name)
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 || !isBoolType(fn.Signature.Results().At(0).Type()) {
		return false
	}
	s := Param(fn.Params[0].Name(), fn.Params[0].Type())
	ok, t, f := true, 0, 0
	r := &Rule{Name: "pred", KeepFact: nil}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		for _, v := range []bool{true, false} {
			a := res[0]
			if !v {
				a = Not(a)
			}
			st.with(func(s2 *State) {
				tr := containsMarker(s2, s)
				if v {
					t++
				} else {
					f++
				}
				if tr != tb(v) {
					ok = false
				}
			}, a)
		}
	}
	eng := NewEngine(m.c.P, r)
	eng.Run(fn, []*Term{s}, nil, nil)
	m.c.collect(eng, fn)
	m.preds[name] = ok && t > 0 && f > 0 && eng.undec == ""
	return m.preds[name]
}

func containsMarker(st *State, x *Term) tri {
	no := 0
	for _, k := range dataKinds {
		switch st.Truth(Call("strings.Contains", x, Str(markerOf[k]))) {
		case Y:
			return Y
		case N:
			no++
		}
	}
	if no == len(dataKinds) {
		return N
	}
	return U
}

// hasMarker: is text x known to contain a format marker on this path.
func (m *mergeCtx) hasMarker(st *State, x *Term) tri {
	if r := containsMarker(st, x); r != U {
		return r
	}
	for t, v := range st.facts.b {
		if t.op == OCall && len(t.args) == 1 && t.args[0] == x && m.markerPred(t.s) {
			return tb(v)
		}
	}
	return U
}

// substitution analyses the function replacing the markers.
func (m *mergeCtx) substitution(c *Check) {
	m.table = map[string]*Term{}
	if m.D == nil {
		c.Must(false, "anchor|format", "-", "%s", m.bad)
		return
	}
	n := 6
	args, flat, init := symArgs(m.D, n)
	m.dpar = flat
	s0 := flat[0]
	var F *Term
	re := ""
	r := &Rule{Name: "substitution"}
	unbox := func(t *Term) *Term {
		if t.op == OCall && strings.HasPrefix(t.s, "assert:string") {
			return t.args[0]
		}
		return t
	}
	// the marker of the current match and the text behind it
	isMarkerText := func(t *Term, match *Term) bool {
		if t.op == OCall && t.s == "lookup" {
			if k, ok := t.args[1].isStr(); ok {
				return groupIs(re, k, 0, true)
			}
		}
		if t.op == OLD && t.args[0].op == OEA && t.args[0].args[0] == match {
			if g, ok := t.args[0].args[1].isInt(); ok {
				return groupIs(re, "", int(g), true)
			}
		}
		return false
	}
	isCommand := func(t *Term, match *Term) bool {
		if t.op == OCall && t.s == "lookup" {
			if k, ok := t.args[1].isStr(); ok {
				return groupIs(re, k, 0, false)
			}
		}
		if t.op == OLD && t.args[0].op == OEA && t.args[0].args[0] == match {
			if g, ok := t.args[0].args[1].isInt(); ok {
				return groupIs(re, "", int(g), false)
			}
		}
		return false
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch ev.name {
		case "(*sed.Engine).RunString":
			ev.handled = true
			t := Call("SED", ev.args...)
			ev.results = []*Term{Ext(t, 0), Ext(t, 1)}
		case "(*regexp.Regexp).FindAllStringSubmatch":
			F = Call(ev.name, ev.args...)
			if x := unwrap(ev.args[0]); x.op == OCall && len(x.args) == 1 {
				re, _ = x.args[0].isStr()
			} else if x := ev.args[0]; x.op == OLD && x.args[0].op == OGlobal {
				re = ""
			}
			c.must(e, st, ev.instr, re != "" && goodPattern(re), "pattern", "the marker pattern %q does not match every marker with and without format expression", re)
			c.must(e, st, ev.instr, ev.args[1] == s0, "searched", "markers are searched in %v", ev.args[1])
			if n, ok := ev.args[2].isInt(); !ok || n >= 0 {
				c.must(e, st, ev.instr, false, "limited", "not all markers are searched")
			}
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) == nil {
			c.must(e, st, in, false, "write", "formatting writes %v", addr)
			return
		}
		// result[name of group i] = text of group i
		if addr.op == OME && !addr.args[1].isConst() && val.op == OLD && val.args[0].op == OEA {
			k := addr.args[1]
			ok := k.op == OLD && k.args[0].op == OEA && k.args[0].args[1] == val.args[0].args[1] && strings.Contains(k.args[0].args[0].String(), "SubexpNames")
			c.must(e, st, in, ok, "groups", "the text of a group of the marker pattern is stored under another name")
		}
	}
	steps := 0
	seen := map[string]bool{}
	judge := func(e *Engine, st *State, in ssa.Instruction, match *Term, x *Term) {
		// which marker is it
		kind := st.Get("mk")
		if kind == "" || kind == "none" {
			if s, ok := x.isStr(); ok && s == "" {
				return // cannot happen: the pattern only matches the five markers
			}
			if kind == "none" {
				all := true
				for _, k := range dataKinds {
					if st.Get("not:"+k) == "" {
						all = false
					}
				}
				if all {
					return
				}
			}
			c.must(e, st, in, false, "which", "a marker is replaced by %v without knowing which marker it is %v", x, st.kv)
			return
		}
		seen[kind] = true
		base := x
		var sedOf *Term
		x.any(func(g *Term) bool {
			if g.op == OCall && g.s == "SED" {
				sedOf = g
			}
			return false
		})
		cmd := map[string]tri{"yes": Y, "no": N}[st.Get("cmd")]
		if sedOf != nil {
			base = sedOf.args[len(sedOf.args)-1]
			c.must(e, st, in, cmd == Y, "sed-spurious", "a format expression is applied to a marker without one")
			c.must(e, st, in, sedOf.hasArg(func(g *Term) bool { return isCommand(g, match) }), "sed-command", "another text than the format expression is applied to the marker's data")
		} else if cmd == Y {
			// only when the expression is invalid
			bad := st.Get("sederr") != ""
			c.must(e, st, in, bad, "sed-skipped", "a format expression is not applied although it is valid")
		}
		v := unbox(base)
		if old := m.table[kind]; old != nil && old != v {
			c.must(e, st, in, false, "ambiguous|"+kind, "marker %s is replaced by %v or by %v", markerOf[kind], old, v)
		}
		m.table[kind] = v
	}
	matchOf := func(t *Term) *Term {
		if t.op == OLD && t.args[0].op == OEA {
			return t.args[0].args[0]
		}
		return nil
	}
	r.OnBranch = func(e *Engine, st *State, cond *Term, v bool, in ssa.Instruction) {
		if cond.op == ONot {
			cond, v = cond.args[0], !v
		}
		if cond.op != OEq {
			return
		}
		for i := 0; i < 2; i++ {
			s, ok := cond.args[i].isStr()
			x := cond.args[1-i]
			if ok {
				for k, mk := range markerOf {
					if mk == s && isMarkerText(x, matchOf(x)) {
						if v {
							st.Set("mk", k)
						} else {
							st.Set("not:"+k, "1")
							if st.Get("mk") == "" {
								st.Set("mk", "none")
							}
						}
					}
				}
				if s == "" && isCommand(x, matchOf(x)) {
					st.Set("cmd", map[bool]string{true: "no", false: "yes"}[v])
				}
			}
			if cond.args[i].isNil() && !v && x.any(func(g *Term) bool { return g.op == OCall && (g.s == "SED" || strings.HasPrefix(g.s, "sed.New")) }) {
				st.Set("sederr", "1")
			}
		}
	}
	r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
		if !isString(ph.Type()) || old == nil || F == nil || old == nw {
			return
		}
		it := iterOf(l, st.top().ctx)
		match := LD(EA(F, it), 0)
		in := ph.Block().Instrs[len(ph.Block().Instrs)-1]
		if !(nw.op == OCall && (nw.s == "strings.Replace" || nw.s == "strings.ReplaceAll") && nw.args[0] == old) {
			return
		}
		st.Set("subst:"+ref(it), "1")
		steps++
		defer func() {
			for _, k := range append([]string{"mk", "cmd", "sederr"}, dataKinds...) {
				st.Set(k, "")
				st.Set("not:"+k, "")
			}
		}()
		one := false
		if nw.s == "strings.Replace" {
			n, ok := nw.args[3].isInt()
			one = ok && n == 1
		}
		c.must(e, st, in, one, "occurrence", "not exactly the first remaining occurrence of a marker is replaced")
		c.must(e, st, in, nw.args[1] == LD(EA(match, Int(0)), 0), "matched", "the text %v is replaced instead of the matched marker", nw.args[1])
		judge(e, st, in, match, nw.args[2])
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if F != nil && st.Get("inner") == "" && ev.kind == "enter" {
			for _, k := range append([]string{"mk", "cmd", "sederr"}, dataKinds...) {
				st.Set(k, "")
				st.Set("not:"+k, "")
			}
		}
		if ev.kind == "exit" && F != nil && fullScan(st, ev.iter, F) != "" {
			st.Set("scanned", "1")
		}
	}
	// an iteration that replaces nothing
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		t := res[0]
		if t == s0 {
			// nothing was replaced: there were no matches, or the marker text was empty
			return
		}
		c.must(e, st, in, t.op == OPhi && st.Get("scanned") != "", "result", "the formatted text is %v", t)
	}
	c.rule("The function substituting format markers searches the whole text for every marker (with or without a format expression) and replaces the occurrences one after another, each by the datum of exactly its marker, transformed by its valid format expression if it has one.")
	eng := NewEngine(c.P, r)
	// every datum is a text
	eng.Run(m.D, args, nil, init)
	c.collect(eng, m.D)
	for _, k := range dataKinds {
		c.Must(seen[k] && m.table[k] != nil, "marker|"+k, c.P.pos(m.D.Pos()), "the marker %s is never replaced", markerOf[k])
	}
	c.least("substitutions of markers", steps, 1)
}

// groupIs tells whether the named (or numbered) group of the pattern is the marker itself (or the command of its format expression).
func groupIs(pat, name string, g int, marker bool) bool {
	re, err := regexp.Compile(pat)
	if err != nil {
		return false
	}
	if name != "" {
		g = re.SubexpIndex(name)
	}
	if g <= 0 {
		return false
	}
	for _, mk := range markerOf {
		x := re.FindStringSubmatch(mk + "{s/a/b/}")
		if x == nil || g >= len(x) {
			return false
		}
		want := mk
		if !marker {
			want = "s/a/b/"
		}
		if x[g] != want {
			return false
		}
	}
	return true
}

func goodPattern(pat string) bool {
	re, err := regexp.Compile(pat)
	if err != nil {
		return false
	}
	for _, mk := range markerOf {
		for _, tail := range []string{"", "{s/a/b/}", "{}", "{s/%x/y/g}"} {
			for _, rest := range []string{"", " z", "%%", "{x", "}y{z}", "%v", "\nnext"} {
				for _, pre := range []string{"", "a ", "%", "%z", "{"} {
					if tail == "" && (strings.HasPrefix(rest, "{") && strings.Contains(rest, "}")) {
						continue
					}
					x := re.FindAllStringSubmatch(pre+mk+tail+rest, -1)
					if len(x) == 0 || x[0][0] != mk+tail {
						return false
					}
				}
			}
		}
	}
	for _, no := range []string{"", "%", "abc", "%d", "%%", "%V", "v", "%s", "% v", "{s/a/b/}"} {
		if re.MatchString(no) {
			return false
		}
	}
	return true
}

// factTerms lists the sub terms of equalities known on the path.
func (st *State) factTerms() []*Term {
	var out []*Term
	for t := range st.facts.b {
		if t.op == OEq {
			out = append(out, t.args[0], t.args[1])
		}
	}
	return out
}

// factEqs gives the equalities (and inequalities) known on the path.
func (st *State) factEqs() []*Term {
	var out []*Term
	for t := range st.facts.b {
		if t.op == OEq {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (t *Term) hasArg(f func(*Term) bool) bool { return t.any(f) }

func ruleSubst(c *Check) {
	c.P.mc = nil
	m := c.mergeCtx()
	if m.D == nil {
		c.Must(false, "anchor|format", "-", "%s", m.bad)
		return
	}
	m.substitution(c)
}

func nodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "yaml.v3")
}

// noHash: t is the text of orig without a leading comment sign.
func noHash(st *State, t, orig *Term) bool {
	if t == Call("strings.TrimPrefix", orig, Str("#")) {
		return true
	}
	hp := Call("strings.HasPrefix", orig, Str("#"))
	if t == orig && st.IsNot(hp) {
		return true
	}
	if t.op == OCall && t.s == "substr" && t.args[0] == orig && t.args[1] == Int(1) && t.args[2] == Call("strlen", orig) && st.Is(hp) {
		return true
	}
	return false
}

var commentKinds = []struct{ field, kind string }{{"HeadComment", "head"}, {"LineComment", "line"}, {"FootComment", "foot"}}

// comments judges the comments of node o after the comments of node n were applied: final gives the present value,
// orig the value before.
func (m *mergeCtx) comments(c *Check, e *Engine, st *State, in ssa.Instruction, what string, n *Term, final, orig func(f string) *Term, value *Term, keys []*Term, rewrite func(*Term) *Term) {
	for _, k := range commentKinds {
		fin := final(k.field)
		src := LD(FA(n, k.field), st.version(FA(n, k.field)))
		st.with(func(s *State) {
			if c.for_("C17") {
				c.must(e, st, in, fin == orig(k.field), "kept|"+what+k.field, "the %s of the %s becomes %v although the overlay's node has none", k.field, what, fin)
			}
		}, Eq(src, Str("")))
		st.with(func(s *State) {
			got, data, why := m.fill(fin)
			if rewrite != nil && why == "" {
				got = rewrite(got)
			}
			if why != "" || got != src {
				if c.for_("C17") {
					c.must(e, st, in, false, "set|"+what+k.field, "the %s of the %s becomes %v instead of the overlay's comment with its markers filled in %s", k.field, what, fin, why)
				}
				return
			}
			if c.for_("C17") {
				c.must(e, st, in, true, "set|"+what+k.field, "")
			}
			if c.for_("C30") {
				m.data(c, e, st, in, what+" "+k.field, data, orig, value, keys)
			}
		}, Not(Eq(src, Str(""))))
	}
}

// data judges what the markers of one text are replaced by.
func (m *mergeCtx) data(c *Check, e *Engine, st *State, in ssa.Instruction, what string, data map[string]*Term, orig func(f string) *Term, value *Term, keys []*Term) {
	c.must(e, st, in, data["value"] == value, "data|value|"+what, "the value marker in the %s is replaced by %v instead of the original value", what, data["value"])
	for _, k := range commentKinds {
		c.must(e, st, in, data[k.kind] != nil && noHash(st, data[k.kind], orig(k.field)), "data|"+k.kind+"|"+what, "the %s marker in the %s is replaced by %v", k.kind, what, data[k.kind])
	}
	ok := false
	for _, k := range keys {
		if data["key"] == k {
			ok = true
		}
	}
	c.must(e, st, in, ok, "data|key|"+what, "the key marker in the %s is replaced by %v", what, data["key"])
}

// headOf finds the recursive function doing the merge.
func (m *mergeCtx) headOf(root *ssa.Function) *ssa.Function {
	P := m.c.P
	seen := map[*ssa.Function]bool{root: true}
	work := []*ssa.Function{root}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		n := 0
		for _, p := range f.Params {
			if nodePtr(p.Type()) {
				n++
			}
		}
		if (n >= 2 || f == root) && P.recursive(f) {
			return f
		}
		for _, s := range P.graph().out[f] {
			if s.callee != nil && !seen[s.callee] {
				seen[s.callee] = true
				work = append(work, s.callee)
			}
		}
	}
	return nil
}

// idx gives the index of the element of list that t is.
func idxIn(t, list *Term) *Term {
	if t.op == OLD && t.args[0].op == OEA && t.args[0].args[0] == list {
		return t.args[0].args[1]
	}
	return nil
}

// versionIf is the version of addr disregarding changes reported for bases that match skip.
func (st *State) versionIf(addr *Term, skip func(b *Term) bool) int64 {
	for i := len(st.hvs) - 1; i >= 0; i-- {
		if st.hvs[i].affects(addr) && !skip(st.hvs[i].base) {
			return st.hvs[i].ver
		}
	}
	return 0
}

func ruleMerge(c *Check) {
	root := c.fn("actions", "MergeNode")
	if root == nil {
		return
	}
	c.P.mc = nil
	m := c.mergeCtx()
	m.table = nil
	if m.D == nil {
		c.Must(false, "anchor|format", "-", "%s", m.bad)
		return
	}
	m.substitution(c)
	m.keys = 0
	H := m.headOf(root)
	if H == nil {
		c.Must(false, "anchor|merge", c.P.pos(root.Pos()), "the recursive function merging two nodes was not found below MergeNode")
		return
	}
	ptrT := H.Params[0].Type()
	if H == root {
		ptrT = root.Params[0].Type().Underlying().(*types.Slice).Elem()
	}
	o, n := Param("o", ptrT), Param("n", ptrT)
	// MergeNode merges all further nodes into the first one
	if H != root && c.for_("C18", "C32") {
		c.rule("MergeNode(n0, n1, ..., nk) merges n1, ..., nk into n0 in this order and stops at the first error.")
		x := []*Term{Param("n0", ptrT), Param("n1", ptrT), Param("n2", ptrT)}
		r := &Rule{Name: "mergenodes", Pure: true, Stop: func(f *ssa.Function) bool { return f == H }}
		r.OnCall = func(e *Engine, st *State, ev *CallEv) {
			if ev.callee != H {
				return
			}
			k := st.Get("k")
			want := x[1]
			if k == "1" {
				want = x[2]
			}
			c.must(e, st, ev.instr, ev.args[0] == x[0] && ev.args[1] == want && len(k) < 2, "variadic", "MergeNode(n0, n1, n2) merges %v into %v in step %s", ev.args[1], ev.args[0], k)
			st.Set("k", k+"1")
			t := e.freshResults(st, ev.instr, "merge", 1)[0]
			ev.handled, ev.results = true, []*Term{t}
			st.Set("err:"+ref(t), "m "+ref(t)+" ")
		}
		pend := func(e *Engine, st *State, in ssa.Instruction) {
			for _, p := range st.listed("err:") {
				c.must(e, st, in, st.Is(Eq(p, Nil())), "variadic-error", "MergeNode goes on although the error of a merge is not known to be nil")
				st.Set("err:"+ref(p), "")
			}
		}
		r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
			if ev.kind == "back" {
				pend(e, st, ev.l.header.Instrs[0])
			}
		}
		rets := 0
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			rets++
			if st.Is(Eq(res[0], Nil())) {
				c.must(e, st, in, st.Get("k") == "11", "variadic-all", "MergeNode(n0, n1, n2) succeeds after merging %d nodes", len(st.Get("k")))
				pend(e, st, in)
			}
		}
		c.explore(root, r, []*Term{Elems(x...)}, nil)
	}
	// the comments of the nodes themselves and those of the keys below them are varied one after the other
	for _, keys := range []bool{false, true} {
		m.pair(c, H, o, n, ptrT, false, H == root, keys)
		if len(H.Params) > 2 {
			m.pair(c, H, o, n, ptrT, true, false, keys)
		}
	}
	if c.for_("C18", "C32", "C30") {
		m.sanitizers(c, H)
	}
}

// pair explores merging n into o.
func (m *mergeCtx) pair(c *Check, H *ssa.Function, o, n *Term, ptrT types.Type, withKey, variadic, keyComments bool) {
	K := Str("")
	if withKey {
		K = Param("K", types.Typ[types.String])
	}
	var args []*Term
	if variadic {
		args = []*Term{Elems(o, n)}
	} else {
		nodes := 0
		for _, p := range H.Params {
			switch {
			case nodePtr(p.Type()) && nodes == 0:
				args = append(args, o)
				nodes++
			case nodePtr(p.Type()) && nodes == 1:
				args = append(args, n)
				nodes++
			case isString(p.Type()):
				args = append(args, K)
			case isSliceType(p.Type()):
				if withKey {
					args = append(args, Elems(K))
				} else {
					args = append(args, Nil())
				}
			default:
				args = append(args, Param(p.Name(), p.Type()))
			}
		}
	}
	oC, nC := Fld(o, "Content"), Fld(n, "Content")
	cur := func(e *Engine, st *State) *Term { return e.list(st, e.Load(st, FA(o, "Content"), nil)) }
	r := &Rule{Name: "merge", Pure: true, MaxStates: 2000000}
	isSan := func(f *ssa.Function) bool {
		return f != H && c.P.inRepo(f) && fnPkg(f).Name() == "actions" && c.P.recursive(f) && c.P.reaches(f, m.D) && !c.P.reaches(f, H)
	}
	r.Stop = func(f *ssa.Function) bool { return isSan(f) }
	r.OnLoad = func(a *Term) *Term {
		if a.op == OFA && strings.HasSuffix(a.s, "Comment") && (a.args[0] == o || a.args[0] == n) == keyComments {
			return Str("")
		}
		return nil
	}
	nKind := func(st *State, k int64) bool { return st.Is(kindIs(n, k)) }
	recs, adds, sans := 0, 0, 0
	// matched: the key at index a of o and the key at index b of n are for the same entry
	nameEq := func(st *State, ka, kb *Term) tri {
		va := LD(FA(ka, "Value"), st.versionIf(FA(ka, "Value"), func(b *Term) bool { return b == ka }))
		vb := Fld(kb, "Value")
		return st.Truth(Eq(va, vb))
	}
	// even halves an even index
	okErr := func(e *Engine, st *State, in ssa.Instruction, when string) {
		for _, p := range st.listed("err:") {
			c.must(e, st, in, st.Is(Eq(p, Nil())), "ignored-error", "%s although the error of merging an element is not known to be nil", when)
			if when != "success is returned" {
				st.Set("err:"+ref(p), "")
			}
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		if ev.repo && isSan(ev.callee) {
			sans++
			ev.handled = true
			for _, a := range ev.args {
				l := e.list(st, a)
				fresh := l.op == ODeep || (l.op == OElems && allDeep(l.args)) || l.op == OElems && len(l.args) == 0 || l.isNil()
				c.must(e, st, in, fresh, "sanitized-shared", "markers are removed from %v, which is not a fresh copy", l)
				for _, x := range sanItems(l) {
					st.Set("san:"+ref(x), "1 "+ref(x)+" ")
					st.Set("unsan:"+ref(x), "")
				}
			}
			return
		}
		if !ev.recur {
			return
		}
		var a, b *Term
		key := Str("")
		args := ev.args
		if variadic && len(args) == 1 {
			l := e.list(st, args[0])
			if l.op == OElems {
				args = l.args
			}
		}
		for i, x := range args {
			var pt types.Type = ptrT
			if !variadic && i < len(ev.callee.Params) {
				pt = ev.callee.Params[i].Type()
			}
			switch {
			case nodePtr(pt) && a == nil:
				a = x
			case nodePtr(pt) && b == nil:
				b = x
			case isString(pt):
				key = x
			case isSliceType(pt):
				l := e.list(st, x)
				if l.op == OElems && len(l.args) > 0 {
					key = l.args[0]
				}
			}
		}
		ev.handled = true
		t := e.freshResults(st, in, "merge", 1)[0]
		ev.results = []*Term{t}
		okErr(e, st, in, "a further element is merged")
		st.Set("err:"+ref(t), "m "+ref(t)+" ")
		if a == nil || b == nil {
			c.must(e, st, in, false, "operands", "merging is called with %v", ev.args)
			return
		}
		recs++
		defer e.Havoc(st, a, in, "rec")
		cu := cur(e, st)
		ia, ib := idxIn(a, cu), idxIn(b, nC)
		if !c.must(e, st, in, ia != nil && ib != nil, "elements", "%v is merged into %v, which are not elements of the overlay's and the original's content", b, a) {
			return
		}
		if nKind(st, kDoc) {
			z := Int(0)
			c.must(e, st, in, ia == z && ib == z, "document", "the content of a document is not merged with the content of the document: [%v] [%v]", ia, ib)
			st.Set("doc", "1")
			return
		}
		if !nKind(st, kMap) {
			c.must(e, st, in, false, "only-maps", "elements are merged although the overlay's node is not known to be a map")
			return
		}
		ka, kb := AddN(ia, -1), AddN(ib, -1)
		kan, kbn := LD(EA(cu, ka), a.n), El(nC, kb)
		if c.for_("C18") {
			c.must(e, st, in, st.Is(EqInt(Bin("%", ia, Int(2)), Int(1))) && st.Is(EqInt(Bin("%", ib, Int(2)), Int(1))), "values", "the element [%v] is merged into [%v]: not values of map entries", ib, ia)
			eq := nameEq(st, kan, kbn) == Y
			mk := m.hasMarker(st, Fld(kbn, "Value")) == Y
			c.must(e, st, in, eq || mk, "same-key", "the value at %v is merged into the value at %v although the keys are not known to have the same name", ib, ia)
			c.must(e, st, in, st.Is(EqInt(e.Load(st, FA(o, "Kind"), nil), Int(kMap))), "map-kind", "an entry is merged into a node that is not known to be a map")
			c.must(e, st, in, st.Get("rec:"+ref(ka)) == "", "twice", "an entry is merged twice")
		}
		kv := LD(FA(kan, "Value"), st.versionIf(FA(kan, "Value"), func(b *Term) bool { return b == kan }))
		if c.for_("C30") {
			c.must(e, st, in, key == kv, "key-name", "the key name passed on for an entry is %v", key)
		}
		st.Set("rec:"+ref(ka), "x "+ref(kb)+" "+ref(ka)+" ")
		st.Set("hit:"+ref(kb), "1 "+ref(kb)+" ")
		st.Set("pend:"+ref(ka), st.Get("rec:"+ref(ka)))
	}
	judgeKeys := func(e *Engine, st *State, in ssa.Instruction, it *Term) {
		cu := cur(e, st)
		for k := range st.kv {
			if !strings.HasPrefix(k, "pend:") {
				continue
			}
			ka, kb := unref(strings.TrimPrefix(k, "pend:")), unref(strings.TrimPrefix(st.kv[k], "x "))
			if it == nil || ka.has(it) || kb.has(it) {
				m.key(c, e, st, in, cu, ka, kb, n, keyComments)
				st.Set(k, "")
			}
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if st.rootFresh(addr) != nil || addr.op == OGlobal {
			return
		}
		if addr.has(n) && !addrRoot(addr, o) {
			if c.for_("C32", "C18") {
				c.must(e, st, in, false, "overlay-changed", "merging writes %v of the overlay", addr)
			}
			return
		}
		if addr.op == OFA && addr.args[0] == o {
			switch addr.s {
			case "HeadComment", "LineComment", "FootComment", "Kind", "Tag", "Value":
				return
			case "Content":
				m.content(c, e, st, in, o, n, oC, nC, val, &adds)
				return
			}
		}
		cu := cur(e, st)
		if addr.op == OFA {
			if ia := idxIn(addr.args[0], cu); ia != nil && nKind(st, kMap) {
				st.Set("keyw:"+ref(ia), "x "+ref(ia)+" ")
				switch addr.s {
				case "HeadComment", "LineComment", "FootComment", "Value":
					return
				case "Kind":
					if v, ok := val.isInt(); ok && v == kScal {
						return
					}
				case "Content":
					if val.isNil() {
						return
					}
				case "Tag":
					return
				}
			}
		}
		if c.for_("C18", "C32") {
			c.must(e, st, in, false, "write", "merging writes %v", addr)
		}
	}
	iterKey := func(it *Term) string { return ref(it) }
	r.OnPhi = copyLists{}.onPhi
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		copyLists{}.onLoop(e, st, ev)
		in := ev.l.header.Instrs[0]
		it := ev.iter
		ik := iterKey(it)
		cu := cur(e, st)
		if ev.kind == "back" {
			m.unsanitized(c, e, st, in)
		}
		if nKind(st, kSeq) {
			switch ev.kind {
			case "enter":
				st.clearIter(it)
				st.Set("bad:grow:"+ik, "")
				st.Set("keep:start:"+ik, ref(cu))
			case "back":
				if st.Get("grow:"+ref(it)) == "" {
					st.Set("bad:grow:"+ik, "1")
				}
				st.clearIter(it)
			case "exit":
				if st.Get("bad:grow:"+ik) == "" && fullScan(st, it, nC) != "" {
					st.Set("grown", st.Get("keep:start:"+ik))
				}
			}
			return
		}
		if !nKind(st, kMap) {
			return
		}
		ev2 := Bin("*", Int(2), it)
		ev2 = Add(it, it, 1)
		switch ev.kind {
		case "enter":
			st.clearIter(it)
			st.Set("bad:scan:"+ik, "")
			st.Set("keep:diff:"+ik, "")
			st.Set("bad:pair:"+ik, "")
		case "back":
			okErr(e, st, in, "the next entry is handled")
			judgeKeys(e, st, in, it)
			ka := ev2
			kan := LD(EA(cu, ka), st.versionIf(EA(cu, ka), func(b *Term) bool { return b.has(it) }))
			// keys of the original at this iteration: either merged or known to be different
			touched := true // the iteration deals with entries
			if st.Get("rec:"+ref(ka)) == "" {
				w := st.Get("keyw:" + ref(ka))
				if w != "" && c.for_("C17", "C18", "C30") {
					c.must(e, st, in, false, "key-changed", "a key is changed although its value is not merged")
				}
				diff := false
				for _, kb := range overlayKeys(st, nC) {
					if nameEq(st, kan, kb) == N {
						diff = true
					}
				}
				touched = diff || w != ""
				if !diff {
					st.Set("bad:scan:"+ik, "1")
				} else {
					st.Set("keep:diff:"+ik, "1")
				}
			}
			// an iteration over the overlay's entries
			kb := El(nC, ev2)
			hit := st.Get("hit:"+ref(ev2)) != ""
			added := st.Get("add:"+ref(ev2)) != ""
			if !hit && !added {
				st.Set("bad:pair:"+ik, "1")
			}
			if c.for_("C18") && added {
				c.must(e, st, in, st.Get("half") == "", "map-append-half", "a key is appended without its value")
			}
			if hit && added && c.for_("C18") {
				c.must(e, st, in, false, "both", "an entry of the overlay is merged and appended as well")
			}
			if hit && m.hasMarker(st, Fld(kb, "Value")) == Y && c.for_("C18", "C30") {
				c.must(e, st, in, st.Get("complete") == "1", "marker-all", "a key with markers is not merged into all entries")
			}
			if touched || hit || added {
				st.Set("complete", "")
			}
			st.clearIter(it)
		case "exit":
			for _, p := range st.listed("err:") {
				if st.IsNot(Eq(p, Nil())) {
					return // left because of an error
				}
			}
			// all entries of the original were looked at
			if st.Get("bad:scan:"+ik) == "" && st.Truth(Lt(AddN(ev2, 1), LenOf(cu))) == N {
				st.Set("complete", "1"+st.Get("keep:diff:"+ik))
			}
			st.Set("keyw:"+ref(ev2), "")
			if st.Get("bad:pair:"+ik) == "" && st.Truth(Lt(AddN(ev2, 1), LenOf(nC))) == N {
				st.Set("allpairs", "1")
			}
			st.Set("rec:"+ref(ev2), "")
		}
	}
	succ := map[int64]int{}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		load := func(f string) *Term { return e.Load(st, FA(o, f), nil) }
		orig := func(f string) *Term { return Fld(o, f) }
		judge := func(st *State) { // success
			okErr(e, st, in, "success is returned")
			judgeKeys(e, st, in, nil)
			m.unsanitized(c, e, st, in)
			for _, k := range []int64{kDoc, kMap, kSeq, kScal, kAlias} {
				st.with(func(st *State) {
					succ[k]++
					content := e.list(st, load("Content"))
					if k != kAlias {
						keys := []*Term{K, Str("")}
						if k == kScal {
							keys = []*Term{K}
						}
						if k == kDoc {
							keys = append(keys, Fld(o, "Value"))
						}
						if k == kDoc && (st.emptyList(oC) || st.emptyList(nC)) {
							// nothing to merge
						} else if !keyComments {
							m.comments(c, e, st, in, whatKind(k), n, load, orig, Fld(o, "Value"), keys, nil)
						}
					}
					switch k {
					case kAlias:
						if c.for_("C32") {
							c.must(e, st, in, false, "alias", "merging an alias succeeds")
						}
					case kDoc:
						if c.for_("C18", "C32") {
							c.must(e, st, in, st.Get("doc") != "" || st.emptyList(oC) || st.emptyList(nC), "document-merged", "a document is merged without merging its content")
							c.must(e, st, in, content == oC, "document-content", "merging a document changes its content list")
						}
					case kMap:
						if c.for_("C18") {
							c.must(e, st, in, st.Get("allpairs") != "" || st.emptyList(nC) || st.Truth(Lt(Int(1), LenOf(nC))) == N, "all-entries", "success is returned although not every entry of the overlay is known to be merged or appended")
						}
					case kSeq:
						if g := unref(st.Get("grown")); g != nil {
							content = Cat(g, Deep(nC))
						}
						if c.for_("C32") {
							c.must(e, st, in, st.Is(EqInt(load("Kind"), Int(kSeq))), "seq-kind", "the result of merging a sequence is not a sequence")
							st.with(func(s *State) {
								ok := content == Cat(oC, Deep(nC)) || content == oC && (s.emptyList(nC))
								c.must(e, st, in, ok, "append", "merging a sequence into a sequence gives %v", content)
							}, kindIs(o, kSeq))
							st.with(func(s *State) {
								ok := content == Deep(nC) || (LenOf(content) == Int(0) || content.isNil()) && s.emptyList(nC) || content == Cat(Elems(), Deep(nC))
								c.must(e, st, in, ok, "seq-overwrites", "merging a sequence into something else gives %v", content)
								tg := load("Tag")
								ok = tg == Fld(n, "Tag")
								if s, isS := tg.isStr(); isS {
									ok = s == "!!seq"
								}
								c.must(e, st, in, ok, "seq-tag", "merging a sequence into something else gives tag %v", tg)
							}, Not(kindIs(o, kSeq)))
						}
					case kScal:
						v := load("Value")
						src, data, why := m.fill(v)
						if c.for_("C32") {
							c.must(e, st, in, why == "" && src == Fld(n, "Value"), "scalar-value", "merging a scalar gives the value %v %s", v, why)
							c.must(e, st, in, load("Tag") == Fld(n, "Tag"), "scalar-tag", "merging a scalar gives the tag %v", load("Tag"))
							c.must(e, st, in, st.Is(EqInt(load("Kind"), Int(kScal))), "scalar-kind", "merging a scalar gives a node that is not known to be a scalar")
							st.with(func(s *State) {
								c.must(e, st, in, content.isNil() || LenOf(content) == Int(0), "scalar-content", "merging a scalar into something else keeps content %v", content)
							}, Not(kindIs(o, kScal)))
						}
						if c.for_("C30") && why == "" && !keyComments {
							m.data(c, e, st, in, "scalar value", data, orig, Fld(o, "Value"), []*Term{K})
						}
					}
				}, kindIs(n, k))
			}
		}
		fail := func(st *State) {
			cause := false
			for _, p := range st.listed("err:") {
				if st.IsNot(Eq(p, Nil())) {
					cause = true
				}
			}
			for t, v := range st.facts.b {
				if !v && t.op == OEq && (t.args[0].isNil() || t.args[1].isNil()) && strings.Contains(t.String(), "reprint") {
					cause = true
				}
			}
			st.with(func(s *State) {
				for _, f := range []string{"Value", "Content", "Kind", "Tag"} {
					if c.for_("C32") {
						c.must(e, st, in, load(f) == orig(f), "alias-changes", "merging an alias changes the %s of the original", f)
					}
				}
			}, kindIs(n, kAlias))
			if c.for_("C18", "C32") {
				c.must(e, st, in, cause || st.refused() || st.Is(kindIs(n, kAlias)), "spurious", "an error is returned although nothing failed")
			}
		}
		st.with(func(s *State) { judge(s) }, Eq(res[0], Nil()))
		st.with(func(s *State) { fail(s) }, Not(Eq(res[0], Nil())))
	}
	c.explore(H, r, args, nil)
	if c.for_("C18") {
		c.least("recursive merges", recs, 1)
		c.least("successful merges of maps", succ[kMap], 1)
		c.least("appended entries", adds, 1)
	}
	if c.for_("C32") {
		c.least("successful merges of sequences", succ[kSeq], 2)
		c.least("successful merges of scalars", succ[kScal], 1)
	}
	if c.for_("C30") {
		c.least("appended copies without markers", sans, 1)
		c.least("judged keys", m.keys, 2)
	}
}

func whatKind(k int64) string {
	return map[int64]string{kDoc: "document", kSeq: "sequence", kMap: "map", kScal: "scalar", kAlias: "alias"}[k] + " "
}

func allDeep(l []*Term) bool {
	for _, x := range l {
		if x.op != ODeep {
			return false
		}
	}
	return true
}

func addrRoot(addr, o *Term) bool {
	for {
		switch addr.op {
		case OFA, OEA, OLD, OSlice, OME:
			addr = addr.args[0]
			continue
		}
		return addr == o || addr.has(o)
	}
}

// overlayKeys lists the overlay's keys the path knows something about.
func overlayKeys(st *State, nC *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for t := range st.facts.b {
		t.any(func(g *Term) bool {
			if g.op == OLD && g.args[0].op == OEA && g.args[0].args[0] == nC && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
			return false
		})
	}
	return out
}

// content judges a change of the original's content list.
func (m *mergeCtx) content(c *Check, e *Engine, st *State, in ssa.Instruction, o, n, oC, nC, val *Term, adds *int) {
	v := e.list(st, val)
	old := e.list(st, e.Load(st, FA(o, "Content"), nil))
	empty := v.isNil() || LenOf(v) == Int(0)
	kind := func(k int64) bool { return st.Is(kindIs(n, k)) }
	switch {
	case kind(kMap):
		if empty {
			ok := false
			if st.Is(Not(kindIs(o, kMap))) {
				ok = true
			}
			if c.for_("C18") {
				c.must(e, st, in, ok && st.Get("added") == "", "map-reset", "the content of a map is dropped")
			}
			return
		}
		sfx, ok := tail(old, v)
		if !ok {
			if c.for_("C18") {
				c.must(e, st, in, false, "map-content", "the content of a map becomes %v", v)
			}
			return
		}
		*adds++
		st.Set("added", "1")
		m.appended(st, sfx)
		// the appended entry: a copy of one key and its value, possibly in two steps
		kb := pairOf(sfx, nC)
		if sfx.op == OElems && len(sfx.args) == 1 && sfx.args[0].op == ODeep && kb == nil {
			if i := idxIn(sfx.args[0].args[0], nC); i != nil {
				if st.Get("half") == "" {
					st.Set("half", ref(i))
					kb = i
				} else if st.Get("half") == ref(AddN(i, -1)) {
					st.Set("half", "")
					return
				}
			}
		}
		if !c.must(e, st, in, kb != nil, "map-append", "%v is appended to a map instead of a copy of one entry of the overlay", sfx) {
			return
		}
		if c.for_("C18") {
			c.must(e, st, in, st.Is(EqInt(Bin("%", kb, Int(2)), Int(0))), "map-append-pair", "an entry is appended starting at %v, which is not a key", kb)
			c.must(e, st, in, st.Get("hit:"+ref(kb)) == "" && st.Get("add:"+ref(kb)) == "", "map-append-dup", "an entry of the overlay is appended although it was merged or appended before")
			none := st.Get("complete") == "1" || st.Get("complete") == "11" && m.hasMarker(st, Fld(El(nC, kb), "Value")) == N || st.emptyList(old) || st.Truth(Lt(Int(1), LenOf(old))) == N
			c.must(e, st, in, none, "map-append-exists", "an entry is appended although not every existing key is known to have another name")
			c.must(e, st, in, st.Is(EqInt(e.Load(st, FA(o, "Kind"), nil), Int(kMap))), "map-append-kind", "an entry is appended to a node that is not known to be a map")
		}
		st.Set("add:"+ref(kb), "1 "+ref(kb)+" ")
	case kind(kSeq):
		// judged at the return
		st.Set("grown", "")
		sfx, ok := tail(old, v)
		if ok {
			m.appended(st, sfx)
		}
		if ok && sfx.op == OElems && len(sfx.args) == 1 && sfx.args[0].op == ODeep {
			if i := idxIn(sfx.args[0].args[0], nC); i != nil && i.op == OIter {
				if st.Get("grow:"+ref(i)) != "" && c.for_("C32") {
					c.must(e, st, in, false, "append-dup", "an item of the overlay is appended twice")
				}
				st.Set("grow:"+ref(i), "1 "+ref(i)+" ")
				return
			}
		}
		for k := range st.kv {
			if strings.HasPrefix(k, "keep:start:") {
				st.Set("bad:grow:"+strings.TrimPrefix(k, "keep:start:"), "1")
			}
		}
	case kind(kScal):
		// judged at the return
	default:
		if c.for_("C18", "C32") {
			c.must(e, st, in, false, "content", "the content list is changed although the overlay's node is not known to be a map, sequence or scalar")
		}
	}
}

// sanItems lists the pieces of a list that can be cleaned one by one.
func sanItems(l *Term) []*Term {
	switch l.op {
	case OElems:
		return l.args
	case OCat:
		var out []*Term
		for _, x := range l.args {
			out = append(out, sanItems(x)...)
		}
		return out
	}
	return []*Term{l}
}

// appended records what still has to be freed from its markers.
func (m *mergeCtx) appended(st *State, sfx *Term) {
	for _, x := range sanItems(sfx) {
		if st.Get("san:"+ref(x)) == "" && !st.emptyList(x) {
			st.Set("unsan:"+ref(x), "1 "+ref(x)+" ")
		}
	}
}

func (m *mergeCtx) unsanitized(c *Check, e *Engine, st *State, in ssa.Instruction) {
	if !c.for_("C30") {
		return
	}
	l := st.listed("unsan:")
	c.must(e, st, in, len(l) == 0, "appended-markers", "content is appended without removing its markers")
	for _, x := range l {
		st.Set("unsan:"+ref(x), "")
	}
}

// pairOf gives the index k when t is a copy of [k, k+2) of list.
func pairOf(t, list *Term) *Term {
	if t.op == ODeep && t.args[0].op == OSlice && t.args[0].args[0] == list {
		lo, hi := t.args[0].args[1], t.args[0].args[2]
		if lo != nil && hi != nil && Add(hi, lo, -1) == Int(2) {
			return lo
		}
	}
	if t.op == OElems && len(t.args) == 2 && t.args[0].op == ODeep && t.args[1].op == ODeep {
		a, b := idxIn(t.args[0].args[0], list), idxIn(t.args[1].args[0], list)
		if a != nil && b != nil && Add(b, a, -1) == Int(1) {
			return a
		}
	}
	return nil
}

// key judges the key node of an entry whose value was merged.
func (m *mergeCtx) key(c *Check, e *Engine, st *State, in ssa.Instruction, cu, ka, kbi, n *Term, keyComments bool) {
	nC := Fld(n, "Content")
	kbn := El(nC, kbi)
	skip := func(b *Term) bool { return b.has(ka) || b.has(AddN(ka, 1)) }
	kan := LD(EA(cu, ka), st.versionIf(EA(cu, ka), skip))
	van := LD(EA(cu, AddN(ka, 1)), st.versionIf(EA(cu, AddN(ka, 1)), skip))
	orig := func(f string) *Term { return LD(FA(kan, f), st.versionIf(FA(kan, f), skip)) }
	final := func(f string) *Term { return e.Load(st, FA(kan, f), nil) }
	value := LD(FA(van, "Value"), st.versionIf(FA(van, "Value"), skip))
	m.keys++
	if keyComments {
		m.comments(c, e, st, in, "key ", kbn, final, orig, value, []*Term{orig("Value")}, nil)
	}
	name := final("Value")
	if m.hasMarker(st, Fld(kbn, "Value")) == Y {
		src, data, why := m.fill(name)
		if c.for_("C30", "C18") {
			if c.must(e, st, in, why == "" && src == Fld(kbn, "Value"), "key-name-filled", "a key with markers becomes %v %s", name, why) && c.for_("C30") && keyComments {
				m.data(c, e, st, in, "key", data, orig, value, []*Term{orig("Value")})
			}
		}
	} else if c.for_("C18", "C30") {
		c.must(e, st, in, name == orig("Value") || name == Fld(kbn, "Value"), "key-renamed", "a key becomes %v although the overlay's key is not known to have markers", name)
	}
}

// sanitizers: functions removing the markers of copied content do so for every node and every text.
func (m *mergeCtx) sanitizers(c *Check, H *ssa.Function) {
	c.rule("The function removing format markers from appended content visits every node below it and replaces value, head, line and foot comment of every node by the same text with its markers filled with nothing.")
	n := 0
	for _, f := range sortedFns(c.P.reach(c.P.Func("actions", "MergeNode"))) {
		if f == H || fnPkg(f).Name() != "actions" || !c.P.recursive(f) || !c.P.reaches(f, m.D) || c.P.reaches(f, H) {
			continue
		}
		n++
		m.sanitizer(c, f)
	}
	c.least("functions removing markers", n, 1)
}

func (m *mergeCtx) sanitizer(c *Check, f *ssa.Function) {
	list := len(f.Params) == 1 && isSliceType(f.Params[0].Type())
	if !list && !(len(f.Params) == 1 && nodePtr(f.Params[0].Type())) {
		c.Must(false, "sanitizer", c.P.pos(f.Pos()), "the function removing markers has an unexpected form")
		return
	}
	p := Param(f.Params[0].Name(), f.Params[0].Type())
	fields := []string{"Value", "HeadComment", "LineComment", "FootComment"}
	r := &Rule{Name: "sanitizer", Pure: true}
	done := func(e *Engine, st *State, in ssa.Instruction, el *Term) bool {
		if st.Is(Eq(el, Nil())) {
			return true
		}
		ok := true
		for _, fl := range fields {
			v, has := st.mem[FA(el, fl)]
			src := LD(FA(el, fl), st.versionIf(FA(el, fl), func(b *Term) bool { return b == el }))
			if !has {
				if !st.Is(Eq(src, Str(""))) && containsMarker(st, src) != N && !st.IsNot(Call("strings.Contains", src, Str("%"))) {
					ok = false
				}
				continue
			}
			got, data, why := m.fill(v)
			if why != "" || got != src {
				ok = false
				continue
			}
			for _, k := range dataKinds {
				if data[k] != Str("") {
					ok = false
				}
			}
		}
		fld := func(f string) *Term {
			return LD(FA(el, f), st.versionIf(FA(el, f), func(b *Term) bool { return b == el }))
		}
		ct := fld("Content")
		kind := func(k int64) *Term { return EqInt(fld("Kind"), Int(k)) }
		if st.Get("rec:"+ref(el)) == "" && !st.emptyList(ct) && !st.Is(kind(kScal)) {
			// kinds without content
			bad := false
			for _, k := range []int64{kDoc, kMap, kSeq, kAlias} {
				if k != kAlias && st.Truth(kind(k)) != N {
					bad = true
				}
			}
			if bad {
				ok = false
			}
		}
		return ok
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if !ev.recur {
			return
		}
		ev.handled = true
		a := e.list(st, ev.args[0])
		if a.op == OLD && a.args[0].op == OFA && a.args[0].s == "Content" {
			st.Set("rec:"+ref(a.args[0].args[0]), "x "+ref(a.args[0].args[0])+" ")
			return
		}
		if i := a; i.op == OLD && i.args[0].op == OEA {
			st.Set("child:"+ref(i.args[0].args[1]), "x "+ref(i)+" ")
		}
	}
	el := func(idx *Term) *Term { return El(p, idx) }
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if list {
			st.forAll(ev, "node", []*Term{p}, func(l, idx, x *Term) bool { return done(e, st, ev.l.header.Instrs[0], el(idx)) })
		} else {
			st.forAll(ev, "child", []*Term{Fld(p, "Content")}, func(l, idx, x *Term) bool { return st.Get("child:"+ref(idx)) != "" })
		}
		if ev.kind == "exit" && !list && st.all("child", Fld(p, "Content")) != "" {
			st.Set("rec:"+ref(p), "x "+ref(p)+" ")
		}
		if ev.kind == "back" {
			st.clearIter(ev.iter)
		}
	}
	rets := 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		rets++
		ok := false
		if list {
			ok = st.all("node", p) != "" || st.emptyList(p)
		} else {
			ok = done(e, st, in, p)
		}
		c.must(e, st, in, ok, "sanitize", "the function removing markers returns although not every text of every node is known to have its markers removed")
	}
	args := []*Term{p}
	c.explore(f, r, args, nil)
	c.least("ends of "+fnLabel(f), rets, 1)
}

// C21, C17: replacing.
func ruleReplace(c *Check) {
	root := c.fn("actions", "ReplaceNode")
	if root == nil {
		return
	}
	m := c.mergeCtx()
	if m.D == nil {
		c.Must(false, "anchor|format", "-", "%s", m.bad)
		return
	}
	if c.for_("C21") {
		c.rule("On every successful path of ReplaceNode(o, r) every field of o except its comments is a deep copy of the same field of r; r is never written; an error is returned when copying fails.")
	}
	if c.for_("C17") {
		c.rule("On every successful path of ReplaceNode(o, r) and CombineNode(o, r), for each comment kind: o's comment is unchanged when r has none of that kind, otherwise it is r's comment of that kind with its format markers filled in.")
	}
	o, n := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	st0 := deref(root.Params[0].Type()).Underlying().(*types.Struct)
	r := &Rule{Name: "replace", Pure: true}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if c.for_("C21") && !addrRoot(addr, o) && st.rootFresh(addr) == nil {
			c.must(e, st, in, false, "write", "replacing writes %v", addr)
		}
	}
	succ := 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		st.with(func(s *State) {
			succ++
			for i := 0; i < st0.NumFields(); i++ {
				f := st0.Field(i).Name()
				if commentField(f) || f == "Line" || f == "Column" || !c.for_("C21") {
					continue
				}
				v := e.Load(st, FA(o, f), st0.Field(i).Type())
				src := Fld(n, f)
				scalar := f == "Kind" || f == "Style" || f == "Tag" || f == "Value" || f == "Anchor"
				ok := v == Deep(src) || v == FieldOf(Deep(LD(n, 0)), f, st0.Field(i).Type()) || (scalar && v == src)
				c.must(e, st, in, ok, "field|"+f, "replacing makes the %s %v instead of a copy of the overlay's", f, v)
			}
			dn := Deep(LD(n, 0))
			_ = dn
			m.comments(c, e, st, in, "replaced ", n, func(f string) *Term { return e.Load(st, FA(o, f), nil) }, func(f string) *Term { return Fld(o, f) }, Fld(o, "Value"), []*Term{Str("")}, func(t *Term) *Term {
				for _, k := range commentKinds {
					if t == FieldOf(Deep(LD(n, 0)), k.field, nil) || t == Deep(Fld(n, k.field)) {
						return Fld(n, k.field)
					}
				}
				return t
			})
		}, Eq(res[0], Nil()))
		st.with(func(s *State) {
			cause := false
			for t, v := range s.facts.b {
				if !v && t.op == OEq && strings.Contains(t.String(), "reprint") {
					cause = true
				}
			}
			if c.for_("C21") {
				c.must(e, st, in, cause || s.refused(), "spurious", "replacing reports an error although nothing failed")
			}
		}, Not(Eq(res[0], Nil())))
	}
	c.explore(root, r, nil, nil)
	c.least("successful paths of ReplaceNode", succ, 1)
}

// C17, C30: comments of combined values.
func ruleCombineComments(c *Check) {
	root := c.fn("actions", "CombineNode")
	if root == nil {
		return
	}
	m := c.mergeCtx()
	if m.D == nil {
		return
	}
	o, n := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
	r := &Rule{Name: "combinecomments", Pure: true}
	succ := 0
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		st.with(func(s *State) {
			succ++
			m.comments(c, e, st, in, "combined ", n, func(f string) *Term { return e.Load(st, FA(o, f), nil) }, func(f string) *Term { return Fld(o, f) }, Fld(o, "Value"), []*Term{Str("")}, nil)
		}, Eq(res[0], Nil()))
	}
	c.explore(root, r, nil, nil)
	c.least("successful paths of CombineNode", succ, 3)
}
