package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const yamlFileT = "instructions.YamlFile"

// storesField: functions that write the field of an object that is not a fresh literal of their own.
func (P *Program) storesField(typ, field string) map[*ssa.Function][]ssa.Instruction {
	m := map[*ssa.Function][]ssa.Instruction{}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == typ && fieldName(deref(fa.X.Type()), fa.Field) == field {
						m[f] = append(m[f], in)
					}
				}
			}
		}
	}
	return m
}

// docReaders: the innermost functions that decode documents and keep them in a file.
func (P *Program) docReaders() []*ssa.Function {
	st := P.storesField(yamlFileT, "Nodes")
	is := func(f *ssa.Function) bool {
		if !P.reachesCall(f, "yaml.NewDecoder", "yaml.Unmarshal") {
			return false
		}
		for g := range P.reach(f) {
			if st[g] != nil {
				return true
			}
		}
		return false
	}
	cand := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		if P.inRepo(f) && f.Blocks != nil && is(f) {
			cand[f] = true
		}
	}
	var out []*ssa.Function
	for _, f := range sortedFns(cand) {
		inner := true
		for g := range cand {
			if g != f && P.reaches(f, g) && !P.reaches(g, f) {
				inner = false
			}
		}
		if inner {
			out = append(out, f)
		}
	}
	return out
}

func isNodeList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && typeName(deref(s.Elem())) == "yaml.Node"
}

// edgeVal: the value a phi of the block that is about to be entered gets.
func edgeVal(e *Engine, st *State, ph *ssa.Phi) *Term {
	from := st.top().block
	for i, p := range ph.Block().Preds {
		if p == from {
			return e.val(st, ph.Edges[i])
		}
	}
	return nil
}

// eofKnown: the facts say that the error is the end of the input.
func eofKnown(st *State, err *Term) bool {
	for t := range st.facts.b {
		switch {
		case t.op == OCall && t.s == "errors.Is" && len(t.args) == 2:
			if t.args[0].has(err) && strings.Contains(t.args[1].String(), "io.EOF") && st.Is(t) {
				return true
			}
		case t.op == OEq:
			for i := 0; i < 2; i++ {
				if unwrap(t.args[i]) == err && strings.Contains(t.args[1-i].String(), "io.EOF") && st.Is(t) {
					return true
				}
			}
		}
	}
	return false
}

// ruleReadAll: all documents of an input file (C31).
func ruleReadAll(c *Check) {
	P := c.P
	c.rule("In the function that decodes documents into a file every iteration of the decoding loop must have decoded without error into a node allocated in that iteration and appended exactly this node to the list of the file; the function succeeds only after a decode that reported io.EOF; the decoder reads the whole file of the entry's path, or standard input where the path is known to be -, and the file is not closed before that.")
	c.rule("Where entries of the instructions or of the command line become input files, the reader was called successfully for every element of the list that is kept. Nothing else that runs before the overlays writes the list of documents.")
	readers := P.docReaders()
	c.least("functions reading documents", len(readers), 1)
	n := map[string]int{}
	isReader := map[*ssa.Function]bool{}
	for _, f := range readers {
		isReader[f] = true
		c.readsAll(f, n)
	}
	c.least("documents decoded", n["decode"], 1)
	c.least("ends of the input", n["eof"], 1)
	c.least("input files opened", n["open"], 1)
	// every file is read
	roots := map[*ssa.Function]bool{}
	for _, f := range readers {
		for _, g := range P.fns {
			if g.Blocks == nil || !P.inRepo(g) || !P.reaches(g, f) || g == f || !strings.Contains(pkgShort(g), "instructions") {
				continue
			}
			if o := g.Object(); o == nil || !o.Exported() {
				continue
			}
			roots[g] = true
		}
	}
	for g := range roots {
		for h := range roots {
			if h != g && P.reaches(h, g) {
				delete(roots, h)
			}
		}
	}
	for _, g := range sortedFns(roots) {
		c.readsFiles(g, isReader, n)
	}
	c.least("functions reading lists of files", len(roots), 2)
	c.least("files kept", n["kept"], 2)
	// nothing else
	before := P.byName("(*instructions.Config).GetInstructions")
	if before == nil {
		c.Must(false, "anchor|GetInstructions", "-", "GetInstructions was not found")
		return
	}
	for f, ins := range P.storesField(yamlFileT, "Nodes") {
		part := false
		for _, r := range readers {
			part = part || P.reaches(r, f)
		}
		if part || !P.reaches(before, f) && !P.reachesAny(roots, f) {
			continue
		}
		c.Must(false, "writes|"+fnLabel(f), P.ipos(ins[0]), "%s changes the list of documents of a file after it was read", fnLabel(f))
	}
}

func (P *Program) reachesAny(from map[*ssa.Function]bool, f *ssa.Function) bool {
	for g := range from {
		if P.reaches(g, f) {
			return true
		}
	}
	return false
}

func (c *Check) readsAll(f *ssa.Function, n map[string]int) {
	var file *Term
	for _, p := range f.Params {
		if typeName(deref(p.Type())) == yamlFileT {
			file = Param(p.Name(), p.Type())
		}
	}
	if !c.Must(file != nil, "file|"+fnLabel(f), c.P.pos(f.Pos()), "%s reads documents of more than one file", fnLabel(f)) {
		return
	}
	r := &Rule{Name: "read", KeepAll: true}
	nodes := FA(file, "Nodes")
	pathOf := func(e *Engine, st *State) *Term { return e.Load(st, FA(file, "Path"), types.Typ[types.String]) }
	std := func(st *State, p *Term) tri { return st.Truth(Eq(p, Str("-"))) }
	phiMode, unstored := false, false
	var unstoredAt ssa.Instruction
	pending := func(st *State) (a, err *Term) {
		if s := st.Get("dec"); s != "" {
			return unref(s), unref(st.Get("decerr"))
		}
		return nil, nil
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		fresh := func() {
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
		}
		switch ev.name {
		case "os.Open", "os.OpenFile", "os.ReadFile":
			n["open"]++
			p := pathOf(e, st)
			c.must(e, st, in, ev.args[0] == p && std(st, p) == N, "path", "%v is opened, which is not known to be the path of the file and not -", ev.args[0])
			fresh()
			st.Set("file:"+ref(ev.results[0]), "1")
		case "bufio.NewReader", "bufio.NewReaderSize", "bytes.NewReader", "bytes.NewBuffer", "io.NopCloser":
			ev.handled = true
			ev.results = []*Term{T.mk(Term{op: OIface, args: []*Term{unwrap(ev.args[0])}})}
		case "io.ReadAll", "ioutil.ReadAll":
			fresh()
			src := unwrap(ev.args[0])
			if st.Get("file:"+ref(src)) != "" || isStdGlobal(src, "os.Stdin") {
				if isStdGlobal(src, "os.Stdin") {
					p := pathOf(e, st)
					c.must(e, st, in, std(st, p) == Y, "stdin", "standard input is read for a path that is not known to be -")
				}
				st.Set("file:"+ref(ev.results[0]), "1")
			}
		case "yaml.NewDecoder":
			src := unwrap(ev.args[0])
			for src.op == OIface {
				src = unwrap(src.args[0])
			}
			p := pathOf(e, st)
			switch {
			case isStdGlobal(src, "os.Stdin"):
				c.must(e, st, in, std(st, p) == Y, "stdin", "standard input is read for a path that is not known to be -")
			default:
				c.must(e, st, in, st.Get("file:"+ref(src)) != "", "source", "documents are read from %v, which is not known to be the whole input file", src)
			}
			c.must(e, st, in, st.Get("keep:used:"+ref(src)) == "", "again", "a second decoder is made for %v; what the first one has buffered is lost", src)
			st.Set("keep:used:"+ref(src), ref(src)+" ")
			fresh()
			st.Set("decoder:"+ref(ev.results[0]), ref(src))
		case "(*yaml.Decoder).Decode":
			n["decode"]++
			src := st.Get("decoder:" + ref(ev.args[0]))
			c.must(e, st, in, src != "" && st.Get("closed:"+src) == "", "decoder", "documents are decoded from %v, which is not known to be the open input file", ev.args[0])
			if a, err := pending(st); a != nil {
				c.must(e, st, in, st.Is(Eq(err, Nil())), "skipped", "the result of decoding a document is not known to be successful when the next one is decoded")
				c.must(e, st, in, st.Get("app:"+ref(a)) != "", "dropped", "a document is decoded but not kept")
			}
			to := unwrap(ev.args[1])
			if to.op == OAlloc {
				e.Havoc(st, to, in, "decode")
			}
			fresh()
			st.Set("dec", ref(to))
			st.Set("decerr", ref(ev.results[0])+" ")
			for _, k := range st.listed("app:") {
				st.Set("app:"+ref(k), "")
			}
		case "fmt.Errorf":
			if _, err := pending(st); err != nil && len(ev.args) == 2 && strings.Contains(ev.args[0].String(), "%w") && e.list(st, ev.args[1]).has(err) {
				fresh()
				st.facts.Assume(Eq(ev.results[0], Nil()), false)
				st.Set("wrap:"+ref(ev.results[0]), ref(ev.results[0])+" ")
				st.Set("of:"+ref(ev.results[0]), ref(err)+" ")
			}
		case "(*os.File).Close":
			st.Set("closed:"+ref(unwrap(ev.args[0])), "1")
		}
	}
	// what an accumulator gets: exactly the decoded node
	grows := func(e *Engine, st *State, old, nw *Term) bool {
		a, err := pending(st)
		sfx, ok := tail(e.list(st, old), e.list(st, nw))
		return ok && a != nil && sfx == Elems(a) && st.Is(Eq(err, Nil()))
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != OFA || addr.s != "Nodes" {
			return
		}
		if !c.must(e, st, in, addr == nodes, "other-file", "documents are stored in another file") {
			return
		}
		old := e.Load(st, nodes, nil)
		a, _ := pending(st)
		switch {
		case grows(e, st, old, val):
			c.must(e, st, in, st.Get("app:"+ref(a)) == "", "twice", "a document is kept twice")
			st.Set("app:"+ref(a), "1")
		case st.Get("grown:"+ref(val)) != "" || val.isNil() || e.list(st, val).op == OElems && len(e.list(st, val).args) == 0:
			st.Set("stored", "1")
		case val == old && st.Get("any") == "":
			st.Set("stored", "1")
		default:
			if sfx, ok := tail(e.list(st, old), e.list(st, val)); ok && (st.Get("grown:"+ref(sfx)) != "" || sfx.isNil()) {
				st.Set("stored", "1")
				return
			}
			c.must(e, st, in, false, "stored", "the list of documents gets %v, which is not known to be all documents decoded so far", val)
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		var phis []*ssa.Phi
		for _, in := range ev.l.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isNodeList(ph.Type()) {
				phis = append(phis, ph)
			}
		}
		in := ev.l.header.Instrs[0]
		switch ev.kind {
		case "enter":
			for _, ph := range phis {
				v := edgeVal(e, st, ph)
				ok := v != nil && (v.isNil() || st.emptyList(e.list(st, v)))
				if l := LenOf(e.list(st, v)); !ok {
					k, is := l.isInt()
					ok = is && k == 0
				}
				pt := phiTerm(ph, ev.ctx)
				st.Set("badlist:"+ref(pt), "")
				if !ok {
					st.Set("badlist:"+ref(pt), "1")
				}
			}
		case "back":
			a, err := pending(st)
			for _, ph := range phis {
				pt := phiTerm(ph, ev.ctx)
				old, nw := st.top().env[ph], edgeVal(e, st, ph)
				switch {
				case old != nil && nw == old:
				case old != nil && nw != nil && grows(e, st, old, nw):
					phiMode = true
					if st.Get("app:"+ref(a)) != "" {
						c.must(e, st, in, false, "twice", "a document is kept twice")
					}
					st.Set("app:"+ref(a), "1")
				default:
					st.Set("badlist:"+ref(pt), "1")
				}
			}
			if a != nil {
				c.must(e, st, in, st.Is(Eq(err, Nil())), "skipped", "reading continues after a document that is not known to be decoded successfully")
				c.must(e, st, in, st.Get("app:"+ref(a)) != "", "dropped", "a document is decoded but not kept")
				c.must(e, st, in, a.op == OAlloc && inLoop(a, ev.l, ev.ctx), "shared", "documents are decoded into the same node")
				st.Set("dec", "")
				st.Set("any", "1")
				st.Set("app:"+ref(a), "")
			}
		case "exit":
			for _, ph := range phis {
				if v := st.top().env[ph]; v != nil && st.Get("badlist:"+ref(phiTerm(ph, ev.ctx))) == "" {
					st.Set("grown:"+ref(v), ref(v)+" ")
				}
			}
		}
	}
	end := func(st *State, err *Term) bool {
		if eofKnown(st, err) {
			return true
		}
		for _, w := range st.listed("wrap:") {
			if unref(st.Get("of:"+ref(w))) == err && eofKnown(st, w) {
				return true
			}
		}
		return false
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		i := lastError(f.Signature)
		if i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		n["eof"]++
		_, err := pending(st)
		if i >= 0 && err != nil && res[i] == err && st.Truth(Eq(err, Nil())) == U {
			// returned as it is
			return
		}
		c.must(e, st, in, err != nil && end(st, err), "end", "%s may succeed without having reached the end of the input", fnLabel(f))
		if st.Get("stored") == "" {
			unstored, unstoredAt = true, in
		}
	}
	c.explore(f, r, nil, nil)
	if phiMode && unstored {
		c.Must(false, "unstored|"+fnLabel(f), c.P.ipos(unstoredAt), "%s may succeed without storing the documents in the file", fnLabel(f))
	}
}

// readsFiles: a function that turns entries into files calls the reader for all of them.
func (c *Check) readsFiles(root *ssa.Function, isReader map[*ssa.Function]bool, n map[string]int) {
	P := c.P
	reach := map[*ssa.Function]bool{}
	r := &Rule{Name: "files"}
	r.Stop = func(f *ssa.Function) bool {
		v, ok := reach[f]
		if !ok {
			for g := range isReader {
				v = v || P.reaches(f, g)
			}
			reach[f] = v
		}
		return isReader[f] || !v
	}
	lists := func(st *State) []*Term { return st.listed("keep:cand:") }
	okRead := func(st *State, x *Term) bool {
		s := st.Get("read:" + ref(x))
		return s != "" && st.Is(Eq(unref(s), Nil()))
	}
	complete := func(e *Engine, st *State, l *Term) bool {
		l = e.list(st, l)
		if st.Get("allread:"+ref(l)) != "" || st.emptyList(l) {
			return true
		}
		if k, ok := LenOf(l).isInt(); ok && k == 0 {
			return true
		}
		// a scan of a list not known to have elements
		for _, x := range st.factTerms() {
			if x.op == OIter && st.Truth(Lt(x, LenOf(l))) == N && st.Is(EqInt(x, Int(0))) {
				return true
			}
		}
		if l.op == OElems {
			for _, x := range l.args {
				if !okRead(st, x) {
					return false
				}
			}
			return true
		}
		return false
	}
	var recv *Term
	if f := root; f.Signature.Recv() != nil && strings.Contains(types.TypeString(deref(f.Signature.Recv().Type()), short), "YamlFiles") {
		recv = Param(f.Params[0].Name(), f.Params[0].Type())
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if !isReader[ev.callee] {
			// the extended list, tidied in a local before it is stored
			if ev.repo && len(ev.args) > 0 && (recv == nil || ev.args[0] != recv) && st.rootFresh(ev.args[0]) != nil {
				l := e.list(st, e.Load(st, ev.args[0], nil))
				if ps := parts(l); len(ps) > 1 && ps[0].op == OLD && ps[0].args[0].op == OFA && ps[0].args[0].s == "YamlFiles" {
					if sfx, ok := tail(ps[0], l); ok && complete(e, st, sfx) {
						st.Set("keep:tidied:"+ref(ev.args[0]), "1")
					}
				}
			}
			return
		}
		var x *Term
		for i, p := range ev.callee.Params {
			if typeName(deref(p.Type())) == yamlFileT {
				x = ev.args[i]
			}
		}
		ev.handled = true
		ev.results = e.freshResults(st, ev.instr, ev.name, ev.common.Signature().Results().Len())
		if x == nil || len(ev.results) == 0 {
			return
		}
		st.Set("read:"+ref(x), ref(ev.results[len(ev.results)-1]))
		if x.op == OLD && x.args[0].op == OEA {
			l := x.args[0].args[0]
			st.Set("keep:cand:"+ref(l), ref(l)+" ")
		}
	}
	r.OnLoad = nil
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		// candidates of this loop are only known inside it
		ls := lists(st)
		if ev.kind == "enter" {
			st.Set("keep:loop:"+ref(ev.iter), "1")
		}
		if ev.kind == "back" {
			for _, l := range ls {
				if st.Get("allbad:"+ref(l)+ref(ev.iter)) != "" {
					continue
				}
				good := false
				for _, idx := range []*Term{ev.iter, AddN(Add(LenOf(l), ev.iter, -1), -1)} {
					a := EA(l, idx)
					good = good || okRead(st, LD(a, 0)) || okRead(st, e.Load(st, a, nil))
				}
				if !good {
					st.Set("bad:read:"+ref(l)+ref(ev.iter), "1")
				}
			}
		}
		if ev.kind == "exit" {
			for _, l := range ls {
				if fullScan(st, ev.iter, l) != "" && st.Get("bad:read:"+ref(l)+ref(ev.iter)) == "" {
					st.Set("allread:"+ref(l), ref(l)+" ")
				}
			}
		}
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		switch {
		case recv != nil && addr == recv:
			n["kept"]++
			c.must(e, st, in, complete(e, st, val), "unread", "the files kept are not known to have been read")
		case addr.op == OFA && addr.s == "YamlFiles" && st.rootFresh(addr) == nil:
			n["kept"]++
			if val.op == OLD && st.Get("keep:tidied:"+ref(val.args[0])) != "" {
				c.must(e, st, in, true, "unread", "")
				return
			}
			sfx, ok := tail(e.list(st, e.Load(st, addr, nil)), e.list(st, val))
			c.must(e, st, in, ok && complete(e, st, sfx), "unread", "the files added are not known to have been read")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		i := lastError(root.Signature)
		if recv == nil || i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		v := e.Load(st, recv, nil)
		c.must(e, st, in, v != LD(recv, 0) && complete(e, st, v), "unread", "%s may succeed with files that were not read", fnLabel(root))
	}
	c.explore(root, r, nil, nil)
}
