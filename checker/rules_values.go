package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func isStringList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// valueReaders: the innermost functions that decode several files and merge them.
func (P *Program) valueReaders() []*ssa.Function {
	return P.innermostFns(func(f *ssa.Function) bool {
		if !P.reachesCall(f, "yaml.NewDecoder", "yaml.Unmarshal") || !P.reachesCall(f, "actions.MergeNode") {
			return false
		}
		for _, p := range f.Params {
			if isStringList(p.Type()) {
				return true
			}
		}
		return false
	})
}

// ruleValues: templated instructions (C25).
func ruleValues(c *Check) {
	P := c.P
	c.rule("The function that reads the values files must decode the first document of every file of its argument, in order, into a node of its own, merge exactly the list of these nodes without error, and return what the first node of the list then marshals to (nothing for no files).")
	c.rule("Merging several nodes merges each of the further nodes into the first one, in order, and stops only at an error.")
	c.rule("The instructions that are returned were decoded without error either from the file itself, where no values files are known to be given, or from a buffer that holds nothing but the successful execution of a template that was parsed from that file after sprig's functions were added, over the result of reading all values files given.")
	n := map[string]int{}
	readers := P.valueReaders()
	c.least("functions reading values files", len(readers), 1)
	isVal := map[*ssa.Function]bool{}
	for _, f := range readers {
		isVal[f] = true
		c.readsValues(f, n)
	}
	c.least("values files opened", n["open"], 1)
	c.least("values files decoded", n["decode"], 1)
	c.least("merges of values", n["merge"], 1)
	if f := P.byName("actions.MergeNode"); f != nil {
		c.mergesAll(f)
	} else {
		c.Must(false, "anchor|MergeNode", "-", "MergeNode was not found")
	}
	roots := P.instructionReaders()
	c.least("functions reading instructions", len(roots), 1)
	for _, f := range roots {
		c.readsInstructions(f, isVal, n)
	}
	c.least("templates executed", n["execute"], 1)
	c.least("instructions decoded", n["decoded"], 2)
}

// sources follows what files, buffers and decoders hold.
type sources struct {
	c *Check
	n map[string]int
}

// from: what the reader holds ("" unknown). file terms are recorded as "src:" of the opened file.
func (s *sources) from(st *State, r *Term) *Term {
	for i := 0; i < 4 && r != nil; i++ {
		r = unwrap(r)
		if f := unref(st.Get("src:" + ref(r))); f != nil {
			return f
		}
		if r.op == OIface {
			r = r.args[0]
			continue
		}
		return nil
	}
	return nil
}

func (s *sources) call(e *Engine, st *State, ev *CallEv) bool {
	in := ev.instr
	fresh := func() {
		ev.handled = true
		ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
	}
	switch ev.name {
	case "os.Open", "os.OpenFile", "os.ReadFile", "ioutil.ReadFile":
		s.n["open"]++
		fresh()
		st.Set("src:"+ref(ev.results[0]), ref(ev.args[0])+" ")
	case "bufio.NewReader", "bufio.NewReaderSize", "bytes.NewReader", "bytes.NewBuffer", "io.NopCloser", "io.ReadAll", "ioutil.ReadAll":
		src := s.from(st, ev.args[0])
		a := unwrap(ev.args[0])
		fresh()
		if isStdGlobal(a, "os.Stdin") {
			st.Set("src:"+ref(ev.results[0]), ref(Str("-"))+" ")
		} else if src != nil {
			st.Set("src:"+ref(ev.results[0]), ref(src)+" ")
		}
		if b := st.Get("tplbuf:" + ref(a)); b != "" {
			st.Set("tplbuf:"+ref(ev.results[0]), b)
		}
	default:
		return false
	}
	return true
}

func (c *Check) readsValues(f *ssa.Function, n map[string]int) {
	var files *Term
	for _, p := range f.Params {
		if isStringList(p.Type()) {
			files = Param(p.Name(), p.Type())
		}
	}
	r := &Rule{Name: "values", KeepAll: true}
	r.Stop = func(g *ssa.Function) bool { return fnLabel(g) == "actions.MergeNode" }
	src := &sources{c, n}
	// the element a new node was decoded from, without error
	var cur *Loop
	decoded := func(st *State, x, el *Term) bool {
		if x == nil || cur == nil || !inLoop(x, cur, st.top().ctx) {
			return false
		}
		from := unref(st.Get("node:" + ref(x)))
		err := unref(st.Get("nodeerr:" + ref(x)))
		if from == nil || err == nil || !st.Is(Eq(err, Nil())) {
			return false
		}
		if s, ok := from.isStr(); ok && s == "-" {
			return st.Is(Eq(el, Str("-")))
		}
		return from == el
	}
	acc := &Acc{key: "values", is: func(ph *ssa.Phi) bool { return isNodeList(ph.Type()) }, lists: func(*State) []*Term { return []*Term{files} },
		match: func(st *State, l, idx, el, sfx *Term) bool {
			return sfx.op == OElems && len(sfx.args) == 1 && decoded(st, sfx.args[0], el)
		}}
	bases := func(e *Engine, st *State) []*Term {
		var out []*Term
		for v, t := range st.top().env {
			if isNodeList(v.Type()) && t != nil && t.op == OAlloc {
				out = append(out, t)
			}
		}
		return out
	}
	r.OnPhi = func(e *Engine, st *State, ph *ssa.Phi, l *Loop, old, nw *Term) {
		cur = l
		acc.onPhi(e, st, ph, l, old, nw)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		cur = ev.l
		acc.onLoop(e, st, ev)
		if ev.kind == "exit" {
			for _, ph := range phisOf(ev.l, isNodeList) {
				if v := st.top().env[ph]; v != nil && acc.built(e, st, v, files) {
					st.Set("full:"+ref(v), ref(e.list(st, v))+" ")
				}
			}
		}
		for _, b := range bases(e, st) {
			st.forAll(ev, "placed"+ref(b), []*Term{files}, func(l, idx, el *Term) bool {
				return decoded(st, st.mem[EA(b, idx)], el)
			})
		}
	}
	complete := func(e *Engine, st *State, l *Term) bool {
		if acc.built(e, st, l, files) || acc.built(e, st, e.list(st, l), files) {
			return true
		}
		for _, x := range []*Term{l, e.list(st, l)} {
			if st.all("placed"+ref(x), files) == "fwd" && (LenOf(x) == LenOf(files) || LenOf(e.list(st, x)) == LenOf(files) || st.Is(EqInt(LenOf(x), LenOf(files)))) {
				return true
			}
		}
		return false
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		fresh := func() {
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
		}
		if src.call(e, st, ev) {
			return
		}
		decode := func(from, to *Term) {
			n["decode"]++
			to = unwrap(to)
			c.must(e, st, in, from != nil, "source", "values are decoded from something that is not known to be a values file")
			c.must(e, st, in, to.op == OAlloc, "node", "values are decoded into %v, which is not known to be a new node", to)
			e.Havoc(st, to, in, "decode")
			fresh()
			if from != nil {
				st.Set("node:"+ref(to), ref(from)+" ")
				st.Set("nodeerr:"+ref(to), ref(ev.results[0])+" ")
			}
		}
		switch {
		case ev.name == "yaml.NewDecoder":
			from := src.from(st, ev.args[0])
			if from == nil && isStdGlobal(unwrap(ev.args[0]), "os.Stdin") {
				from = Str("-")
			}
			fresh()
			if from != nil {
				st.Set("dec:"+ref(ev.results[0]), ref(from)+" ")
			}
		case ev.name == "(*yaml.Decoder).Decode":
			from := unref(st.Get("dec:" + ref(ev.args[0])))
			decode(from, ev.args[1])
		case ev.callee != nil && fnLabel(ev.callee) == "actions.MergeNode":
			n["merge"]++
			l := ev.args[0]
			c.must(e, st, in, complete(e, st, l), "merged", "%v is merged, which is not known to be the values of all files in their order", e.list(st, l))
			fresh()
			st.Set("merge", ref(ev.results[0])+" ")
			st.Set("mlist", ref(l)+" ")
		case ev.name == "yaml.Marshal":
			fresh()
			l, err := unref(st.Get("mlist")), unref(st.Get("merge"))
			x := unwrap(ev.args[0])
			ok := l != nil && st.Is(Eq(err, Nil())) && (x == e.Load(st, EA(l, Int(0)), nil) || x == e.Load(st, EA(e.list(st, l), Int(0)), nil) || x == LD(EA(e.list(st, l), Int(0)), x.n))
			c.must(e, st, in, ok, "first", "%v becomes the values, which is not known to be the node everything was merged into", x)
			if ok {
				st.Set("bytes", ref(ev.results[0])+" ")
				st.Set("byteserr", ref(ev.results[1])+" ")
			}
		case ev.name == "yaml.Unmarshal":
			b, err := unref(st.Get("bytes")), unref(st.Get("byteserr"))
			if b == nil || ev.args[0] != b {
				decode(src.from(st, ev.args[0]), ev.args[1])
				return
			}
			c.must(e, st, in, st.Is(Eq(err, Nil())), "marshal", "the result of marshalling the values is used although it may have failed")
			to := unwrap(ev.args[1])
			fresh()
			e.Store(st, to, Call("values"), nil)
			st.Set("valueserr", ref(ev.results[0])+" ")
		case ev.name == "(*yaml.Node).Decode":
			l, err := unref(st.Get("mlist")), unref(st.Get("merge"))
			x := unwrap(ev.args[0])
			ok := l != nil && st.Is(Eq(err, Nil())) && (x == e.Load(st, EA(l, Int(0)), nil) || x == LD(EA(e.list(st, l), Int(0)), x.n))
			c.must(e, st, in, ok, "first", "%v becomes the values, which is not known to be the node everything was merged into", x)
			fresh()
			e.Store(st, unwrap(ev.args[1]), Call("values"), nil)
			st.Set("valueserr", ref(ev.results[0])+" ")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if i := lastError(f.Signature); i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		v := unwrap(res[0])
		err := unref(st.Get("valueserr"))
		ok := v == Call("values") && err != nil && st.Is(Eq(err, Nil())) || v.isNil() && (st.emptyList(files) || st.Is(EqInt(LenOf(files), Int(0))))
		for _, k := range st.listed("full:") {
			l := unref(st.Get("full:" + ref(k)))
			ok = ok || v.isNil() && l != nil && st.Is(EqInt(LenOf(l), Int(0)))
		}
		c.must(e, st, in, ok, "result", "%s may give %v instead of the merged values", fnLabel(f), v)
	}
	c.explore(f, r, nil, nil)
}

// mergesAll: every further node is merged into the first one.
func (c *Check) mergesAll(f *ssa.Function) {
	nodes := Param(f.Params[0].Name(), f.Params[0].Type())
	if !c.Must(isNodeList(f.Params[0].Type()), "nodes", c.P.pos(f.Pos()), "MergeNode takes no list of nodes") {
		return
	}
	isMerge := func(g *ssa.Function) bool {
		k := 0
		for _, p := range g.Params {
			if typeName(deref(p.Type())) == "yaml.Node" {
				k++
			}
		}
		return g != f && k >= 2
	}
	r := &Rule{Name: "mergeall", KeepAll: true}
	r.Stop = isMerge
	first := func(st *State, t *Term) bool {
		return t.op == OLD && t.args[0] == EA(nodes, Int(0))
	}
	rest := SliceT(nodes, Int(1), nil)
	done := func(st *State, idx, el *Term) bool {
		for _, k := range st.listed("into:") {
			err := unref(st.Get("into:" + ref(k)))
			if k.op == OLD && k.args[0] == el.args[0] && err != nil && st.Is(Eq(err, Nil())) {
				return true
			}
		}
		return false
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == nil || !isMerge(ev.callee) {
			return
		}
		var ns []*Term
		for i, p := range ev.callee.Params {
			if typeName(deref(p.Type())) == "yaml.Node" {
				ns = append(ns, ev.args[i])
			}
		}
		ev.handled = true
		ev.noHavoc = true
		ev.results = e.freshResults(st, ev.instr, ev.name, ev.common.Signature().Results().Len())
		var other *Term
		switch {
		case first(st, ns[0]):
			other = ns[1]
		case first(st, ns[1]):
			other = ns[0]
		}
		l, idx := whereOf(other)
		if c.must(e, st, ev.instr, l == nodes && st.Truth(EqInt(idx, Int(0))) == N, "into", "%v is merged into %v, which are not known to be the first and a further node", ns[1], ns[0]) {
			st.Set("into:"+ref(other), ref(ev.results[len(ev.results)-1])+" ")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		st.forAll(ev, "merged", []*Term{rest}, func(l, idx, el *Term) bool { return done(st, idx, el) })
		st.forAll(ev, "merged", []*Term{nodes}, func(l, idx, el *Term) bool {
			return st.Is(EqInt(idx, Int(0))) && len(st.listed("into:")) == 0 || done(st, idx, el)
		})
		// from the second one on
		if ev.kind == "back" {
			ok := false
			for _, i := range []*Term{AddN(ev.iter, 1)} {
				ok = ok || done(st, i, LD(EA(nodes, i), 0))
			}
			if !ok {
				st.Set("bad:second:"+ref(ev.iter), "1")
			}
		}
		if ev.kind == "exit" && st.Get("bad:second:"+ref(ev.iter)) == "" && st.Truth(Lt(AddN(ev.iter, 1), LenOf(nodes))) == N {
			st.Set("all:second", "1")
		}
		if ev.kind == "back" {
			st.drop("into:")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if i := lastError(f.Signature); i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		if i := lastError(f.Signature); i >= 0 && !st.Is(Eq(res[i], Nil())) {
			// the result of the last merge is passed on
			for _, k := range st.listed("into:") {
				if unref(st.Get("into:"+ref(k))) == res[i] {
					st.Set("passed", "1")
				}
			}
		}
		few := st.Truth(Lt(Int(1), LenOf(nodes))) == N
		ok := few || st.all("merged", rest) == "fwd" || st.all("merged", nodes) == "fwd" || st.Get("all:second") != ""
		c.must(e, st, in, ok, "all", "MergeNode may succeed although not every further node was merged into the first one in order")
	}
	c.explore(f, r, nil, nil)
}

var sprigMaps = map[string]bool{"sprig.FuncMap": true, "sprig.TxtFuncMap": true, "sprig.GenericFuncMap": true, "sprig.HtmlFuncMap": true}

func (c *Check) readsInstructions(f *ssa.Function, isVal map[*ssa.Function]bool, n map[string]int) {
	var cfg *Term
	for _, p := range f.Params {
		if typeName(deref(p.Type())) == "instructions.Config" {
			cfg = Param(p.Name(), p.Type())
		}
	}
	if !c.Must(cfg != nil, "config|"+fnLabel(f), c.P.pos(f.Pos()), "%s has no configuration", fnLabel(f)) {
		return
	}
	r := &Rule{Name: "instructions", KeepAll: true}
	r.Stop = func(g *ssa.Function) bool { return isVal[g] || strings.Contains(pkgShort(g), "overlays") }
	file := func(t *Term) bool { return t != nil && t.op == OLD && t.args[0] == FA(cfg, "InstructionsFile") }
	values := func(t *Term) bool { return t != nil && t.op == OLD && t.args[0] == FA(cfg, "ValueFiles") }
	vlist := LD(FA(cfg, "ValueFiles"), 0)
	src := &sources{c, n}
	okErr := func(st *State, key string) bool {
		err := unref(st.Get(key))
		return err != nil && st.Is(Eq(err, Nil()))
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		fresh := func() {
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
		}
		if src.call(e, st, ev) {
			return
		}
		same := func() { ev.handled = true; ev.results = []*Term{ev.args[0]} }
		switch {
		case isVal[ev.callee]:
			ok := false
			for i, p := range ev.callee.Params {
				if isStringList(p.Type()) {
					ok = values(ev.args[i])
				}
			}
			c.must(e, st, in, ok, "value-files", "other files than the values files given are read as values")
			fresh()
			st.Set("values", ref(ev.results[0])+" ")
			st.Set("valueserr", ref(ev.results[len(ev.results)-1])+" ")
		case ev.name == "template.New":
			fresh()
			st.Set("tpl:"+ref(ev.results[0]), "new")
			st.Set("tplname:"+ref(ev.results[0]), ref(ev.args[0])+" ")
		case strings.HasSuffix(ev.name, ".FuncMap") && sprigMaps[ev.name] || sprigMaps[ev.name]:
			ev.handled = true
			ev.results = []*Term{Call("sprig")}
		case ev.name == "(*template.Template).Option":
			same()
		case ev.name == "(*template.Template).Funcs":
			same()
			if stripConv(ev.args[1]) == Call("sprig") && st.Get("tpl:"+ref(ev.args[0])) == "new" {
				st.Set("tpl:"+ref(ev.args[0]), "funcs")
			}
		case ev.name == "(*template.Template).ParseFiles", ev.name == "(*template.Template).Parse":
			t := ev.args[0]
			c.must(e, st, in, st.Get("tpl:"+ref(t)) == "funcs", "functions", "a template is parsed without the documented functions")
			ok := false
			if ev.name == "(*template.Template).Parse" {
				x := stripConv(ev.args[1])
				ok = file(src.from(st, x))
			} else {
				l := e.list(st, ev.args[1])
				ok = l.op == OElems && len(l.args) == 1 && file(l.args[0])
				name := unref(st.Get("tplname:" + ref(t)))
				ok = ok && name != nil && name.op == OCall && (name.s == "filepath.Base" || name.s == "path.Base") && file(name.args[0])
			}
			c.must(e, st, in, ok, "template", "the template that is parsed is not known to be the instructions file under its name")
			ev.handled = true
			fr := e.freshResults(st, in, ev.name, 2)
			ev.results = []*Term{t, fr[1]}
			if ok {
				st.Set("parsed:"+ref(t), ref(fr[1])+" ")
			}
		case strings.HasPrefix(ev.name, "(*template.Template).Execute"):
			n["execute"]++
			t, w, d := ev.args[0], unwrap(ev.args[1]), unwrap(ev.args[len(ev.args)-1])
			c.must(e, st, in, okErr(st, "parsed:"+ref(t)), "parsed", "a template is executed that is not known to be the parsed instructions file")
			v := unref(st.Get("values"))
			none := d.isNil() && st.Is(EqInt(LenOf(vlist), Int(0)))
			c.must(e, st, in, v != nil && d == v && okErr(st, "valueserr") || none, "data", "the template is executed with %v instead of the values read", d)
			c.must(e, st, in, st.rootFresh(w) != nil && st.Get("tplbuf:"+ref(w)) == "", "buffer", "the template is executed into something that may hold more than the result")
			fresh()
			st.Set("tplbuf:"+ref(w), ref(ev.results[0])+" ")
		case strings.HasPrefix(ev.name, "(*template.Template)."):
			c.must(e, st, in, false, "other", "%s changes the template", ev.name)
		case strings.HasPrefix(ev.name, "(*bytes.Buffer).") || strings.HasPrefix(ev.name, "(*strings.Builder)."):
			w := unwrap(ev.args[0])
			fresh()
			switch ev.name[strings.LastIndex(ev.name, ".")+1:] {
			case "Bytes", "String":
				if s := st.Get("tplbuf:" + ref(w)); s != "" {
					st.Set("tplbuf:"+ref(ev.results[0]), s)
				}
			case "Len", "Cap", "Grow":
			default:
				st.Set("tplbuf:"+ref(w), ref(Bool(false))+" ")
			}
		case ev.name == "strings.NewReader":
			s := st.Get("tplbuf:" + ref(ev.args[0]))
			fresh()
			if s != "" {
				st.Set("tplbuf:"+ref(ev.results[0]), s)
			}
		case ev.name == "yaml.NewDecoder":
			from := src.from(st, ev.args[0])
			if isStdGlobal(unwrap(ev.args[0]), "os.Stdin") {
				from = Str("-")
			}
			fresh()
			st.Set("from:"+ref(ev.results[0]), "?")
			if from != nil {
				st.Set("from:"+ref(ev.results[0]), ref(from)+" ")
			}
			if b := st.Get("tplbuf:" + ref(unwrap(ev.args[0]))); b != "" {
				st.Set("rendered:"+ref(ev.results[0]), b)
			}
		case ev.name == "(*yaml.Decoder).Decode" || ev.name == "yaml.Unmarshal":
			to := unwrap(ev.args[1])
			if to.op != OAlloc || typeName(deref(to.site.(ssa.Value).Type())) != "instructions.Instructions" {
				return
			}
			n["decoded"]++
			s := unwrap(ev.args[0])
			from, b := unref(st.Get("from:"+ref(s))), unref(st.Get("rendered:"+ref(s)))
			if ev.name == "yaml.Unmarshal" {
				from, b = src.from(st, s), unref(st.Get("tplbuf:"+ref(s)))
			}
			if b != nil {
				c.must(e, st, in, st.Is(Eq(b, Nil())), "rendered", "the instructions are decoded although rendering them may have failed")
			} else {
				std := false
				if from == Str("-") {
					for t, v := range st.facts.b {
						if v && t.op == OEq && (t.args[0] == Str("-") && file(t.args[1]) || t.args[1] == Str("-") && file(t.args[0])) {
							std = true
						}
					}
				}
				c.must(e, st, in, file(from) || std, "file", "the instructions are decoded from something else than the instructions file")
				c.must(e, st, in, st.emptyList(vlist) || st.Is(EqInt(LenOf(vlist), Int(0))), "untemplated", "the instructions are decoded without being rendered although values files may be given")
			}
			e.Havoc(st, to, in, "decode")
			fresh()
			st.Set("ins:"+ref(to), ref(ev.results[0])+" ")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if i := lastError(f.Signature); i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		c.must(e, st, in, okErr(st, "ins:"+ref(res[0])), "result", "%s may succeed with %v, which is not known to be the decoded instructions", fnLabel(f), res[0])
	}
	c.explore(f, r, nil, nil)
}

// setsDirectory: relative paths of the instructions start from the directory of the instructions file.
func (c *Check) setsDirectory(f *ssa.Function, n map[string]int) {
	var cfg *Term
	for _, p := range f.Params {
		if typeName(deref(p.Type())) == "instructions.Config" {
			cfg = Param(p.Name(), p.Type())
		}
	}
	file := func(t *Term) bool {
		return cfg != nil && t != nil && t.op == OLD && t.args[0] == FA(cfg, "InstructionsFile")
	}
	r := &Rule{Name: "directory", KeepAll: true}
	memo := map[*ssa.Function]bool{}
	r.Stop = func(g *ssa.Function) bool {
		v, ok := memo[g]
		if !ok {
			v = !c.P.reachesCall(g, "filepath.Abs", "viper.Set")
			for h := range c.P.reach(g) {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if *op != nil && typeName(deref((*op).Type())) == "instructions.Instructions" {
								v = false
							}
						}
					}
				}
			}
			memo[g] = v
		}
		return v
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		switch ev.name {
		case "filepath.Abs":
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 2)
			st.Set("abs:"+ref(ev.results[0]), ref(ev.args[0])+" ")
			st.Set("abserr:"+ref(ev.results[0]), ref(ev.results[1])+" ")
		case "viper.Set":
			if k, ok := ev.args[0].isStr(); ok && strings.EqualFold(k, "instructionsDir") {
				st.Set("dir", ref(unwrap(ev.args[1]))+" ")
			}
		case "(*yaml.Decoder).Decode", "yaml.Unmarshal":
			to := unwrap(ev.args[1])
			if to.op != OAlloc || typeName(deref(to.site.(ssa.Value).Type())) != "instructions.Instructions" {
				return
			}
			n["directory"]++
			dir := unref(st.Get("dir"))
			ok := false
			if dir != nil && dir.op == OCall && (dir.s == "path.Dir" || dir.s == "filepath.Dir") {
				a, err := unref(st.Get("abs:"+ref(dir.args[0]))), unref(st.Get("abserr:"+ref(dir.args[0])))
				ok = file(a) && err != nil && st.Is(Eq(err, Nil()))
			}
			c.must(e, st, ev.instr, ok, "directory", "the directory relative paths start from is not known to be that of the instructions file when the instructions are decoded")
			ev.stop = true
		}
	}
	c.explore(f, r, nil, nil)
}

func (P *Program) instructionReaders() []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range P.fns {
		if o := f.Object(); o != nil && o.Exported() && f.Blocks != nil && f.Synthetic == "" && f.Name() == "ReadInstructionFile" {
			roots = append(roots, f)
		}
	}
	return roots
}
