package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isFileList(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Slice)
	return ok && typeName(deref(s.Elem())) == yamlFileT
}

func isFileMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(deref(m.Elem())) == yamlFileT
}

var dirWalks = []string{"filepath.Walk", "filepath.WalkDir"}

// innermostFns: the functions for which is holds and that call no other such function.
func (P *Program) innermostFns(is func(f *ssa.Function) bool) []*ssa.Function {
	cand := map[*ssa.Function]bool{}
	for _, f := range P.fns {
		if P.inRepo(f) && f.Blocks != nil && f.Synthetic == "" && is(f) {
			cand[f] = true
		}
	}
	var out []*ssa.Function
	for _, f := range sortedFns(cand) {
		inner := true
		for g := range cand {
			if g != f && P.reaches(f, g) && !P.reaches(g, f) {
				inner = false
			}
		}
		if inner {
			out = append(out, f)
		}
	}
	return out
}

func (P *Program) takesList(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isFileList(p.Type()) {
			return true
		}
	}
	return false
}

// ruleFiles: expansion of directories and merging of duplicates (C29).
func ruleFiles(c *Check) {
	P := c.P
	c.rule("The function given to the directory walk adds exactly the path of every entry that is no directory, also when links are followed, and whose extension is known to be .yaml or .yml, adds nothing else, and never stops the walk or skips an entry without an error.")
	c.rule("The loop over the entries visits every entry: an entry known to be a directory (os.Stat of its cleaned path, resolved against the instructions directory where relative) is replaced by one new entry per walked path with the entry's name, overlays, documents and output path; any other entry is kept. Every list operation of an iteration is accounted for, and only the finished list is stored.")
	c.rule("Before the instructions are decoded the directory relative paths start from is set to the directory of the absolute path of the instructions file.")
	c.rule("The loop that merges duplicates visits every entry: the first one of a path is kept and registered under its path; any further one is removed after its overlays and documents were appended to those of the registered entry and its output path, where it has one, was taken over.")
	c.rule("Where entries are read from instructions or command line, directories are expanded before duplicates are merged, and both happen to the list that is kept.")
	n := map[string]int{}
	listers := P.innermostFns(func(f *ssa.Function) bool {
		return P.reachesCall(f, dirWalks...) && stringParam(f) && f.Parent() == nil
	})
	isLister := map[*ssa.Function]bool{}
	for _, f := range listers {
		isLister[f] = true
		c.listsFiles(f, n)
	}
	c.least("functions walking directories", len(listers), 1)
	c.least("functions given to the walk", n["callbacks"], 1)
	exp := P.innermostFns(func(f *ssa.Function) bool {
		return P.takesList(f) && P.reachesCall(f, dirWalks...) && P.reachesCall(f, "os.Stat", "os.Lstat")
	})
	c.least("functions expanding directories", len(exp), 1)
	isExp, isMerge := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range exp {
		isExp[f] = true
		c.expands(f, isLister, n)
	}
	c.least("directories expanded", n["expanded"], 1)
	c.least("entries kept", n["kept"], 1)
	merge := P.innermostFns(func(f *ssa.Function) bool {
		if !P.takesList(f) {
			return false
		}
		for g := range P.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if l, ok := in.(*ssa.Lookup); ok && isFileMap(l.X.Type()) {
						return true
					}
				}
			}
		}
		return false
	})
	c.least("functions merging duplicates", len(merge), 1)
	for _, f := range merge {
		isMerge[f] = true
		c.mergesFiles(f, n)
	}
	c.least("duplicates merged", n["merged"], 1)
	c.least("first listings kept", n["first"], 1)
	for _, f := range P.instructionReaders() {
		c.setsDirectory(f, n)
	}
	c.least("instructions decoded", n["directory"], 1)
	// the order
	var roots []*ssa.Function
	for _, f := range P.fns {
		if o := f.Object(); o == nil || !o.Exported() || f.Blocks == nil || f.Synthetic != "" || isExp[f] || isMerge[f] {
			continue
		}
		for g := range isExp {
			if P.reaches(f, g) {
				roots = append(roots, f)
			}
		}
	}
	k := 0
	for _, f := range roots {
		inner := true
		for _, g := range roots {
			if g != f && P.reaches(f, g) {
				inner = false
			}
		}
		if inner {
			k++
			c.preparesFiles(f, isExp, isMerge, n)
		}
	}
	c.least("functions collecting input files", k, 2)
	c.least("lists of input files kept", n["lists"], 2)
}

// listsFiles: the list of YAML files below a directory.
func (c *Check) listsFiles(f *ssa.Function, n map[string]int) {
	var dir *Term
	for _, p := range f.Params {
		if isString(p.Type()) {
			dir = Param(p.Name(), p.Type())
		}
	}
	cbs := map[*ssa.Function]bool{}
	r := &Rule{Name: "walk"}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.name == "filepath.EvalSymlinks" {
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 2)
			st.Set("resolved:"+ref(ev.results[0]), ref(ev.args[0])+" ")
			return
		}
		if ev.name != dirWalks[0] && ev.name != dirWalks[1] {
			return
		}
		ev.handled = true
		ev.results = e.freshResults(st, ev.instr, ev.name, 1)
		w := ev.args[0]
		follows := w == Concat(dir, Str("/")) || w == Concat(dir, Str("/.")) || st.Get("resolved:"+ref(w)) == ref(dir)+" "
		c.must(e, st, ev.instr, w == dir || follows, "walked", "%v is walked instead of the directory given", w)
		c.must(e, st, ev.instr, w != dir, "walked-link", "the walk finds nothing below a directory that is given as a link to it")
		cb := stripConv(unwrap(ev.args[1]))
		if !c.must(e, st, ev.instr, cb.fn != nil, "callback", "the function given to the walk is not known") {
			return
		}
		cbs[cb.fn] = true
		for i, fv := range cb.fn.FreeVars {
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok && isSliceType(p.Elem()) && i < len(cb.args) {
				l := e.list(st, e.Load(st, cb.args[i], p.Elem()))
				k, isz := LenOf(l).isInt()
				c.must(e, st, ev.instr, l.isNil() || isz && k == 0, "initial", "the list of files starts with %v", l)
				st.mem[cb.args[i]] = Call("walked")
			}
		}
		st.Set("walk", ref(ev.results[0])+" ")
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if i := lastError(f.Signature); i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		w := unref(st.Get("walk"))
		c.must(e, st, in, w != nil && st.Is(Eq(w, Nil())), "failed", "%s may succeed although the directory was not walked completely", fnLabel(f))
		c.must(e, st, in, res[0] == Call("walked"), "result", "%s gives %v instead of the files found", fnLabel(f), res[0])
	}
	c.explore(f, r, nil, nil)
	for _, cb := range sortedFns(cbs) {
		n["callbacks"]++
		c.walkStep(cb)
	}
}

// extKnown: whether the path is known to have (not to have) one of the extensions.
func extKnown(st *State, p *Term) tri {
	no := map[string]bool{}
	for t, v := range st.facts.b {
		s, x := "", (*Term)(nil)
		switch {
		case t.op == OEq:
			for i := 0; i < 2; i++ {
				if l, ok := t.args[i].isStr(); ok {
					s, x = l, t.args[1-i]
				}
			}
			if x == nil || x.op != OCall || x.s != "filepath.Ext" && x.s != "path.Ext" {
				continue
			}
		case t.op == OCall && t.s == "strings.HasSuffix":
			s, _ = t.args[1].isStr()
			x = t
		default:
			continue
		}
		if a := x.args[0]; a != p && !(a.op == OCall && (a.s == "filepath.Base" || a.s == "path.Base" || strings.HasSuffix(a.s, ".Name"))) {
			continue
		}
		if v && (s == ".yaml" || s == ".yml") {
			return Y
		}
		if v {
			return N
		}
		no[s] = true
	}
	if no[".yaml"] && no[".yml"] {
		return N
	}
	return U
}

func (c *Check) walkStep(f *ssa.Function) {
	var p, err, acc *Term
	var free []*Term
	for _, q := range f.Params {
		switch {
		case isString(q.Type()):
			p = Param(q.Name(), q.Type())
		case isErrorType(q.Type()):
			err = Param(q.Name(), q.Type())
		}
	}
	for _, v := range f.FreeVars {
		t := Param("captured "+v.Name(), v.Type())
		if q, ok := v.Type().Underlying().(*types.Pointer); ok && isSliceType(q.Elem()) {
			acc = t
		}
		free = append(free, t)
	}
	if !c.Must(p != nil && err != nil && acc != nil, "callback|"+fnLabel(f), c.P.pos(f.Pos()), "the function given to the walk collects the files in an unknown way") {
		return
	}
	r := &Rule{Name: "step"}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.repo {
			return
		}
		switch {
		case ev.name == "os.Stat":
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 2)
			if ev.args[0] == p {
				st.Set("stat", ref(ev.results[0])+" ")
				st.Set("staterr", ref(ev.results[1])+" ")
			}
		case strings.HasSuffix(ev.name, ".IsDir") || strings.HasSuffix(ev.name, ".IsRegular"):
			// whether it is one when links are followed, and whether it is one itself
			what := strings.ToLower(ev.name[strings.LastIndex(ev.name, ".")+1:])
			ev.handled = true
			if len(ev.args) > 0 && (st.Get("stat") == ref(ev.args[0])+" " || st.Get("mode:"+ref(ev.args[0])) == "stat") {
				what += "-followed"
			}
			ev.results = []*Term{Call(what)}
		case strings.HasSuffix(ev.name, ".Mode") || strings.HasSuffix(ev.name, ".Type"):
			ev.handled = true
			ev.results = e.freshResults(st, ev.instr, ev.name, 1)
			if len(ev.args) > 0 && st.Get("stat") == ref(ev.args[0])+" " {
				st.Set("mode:"+ref(ev.results[0]), "stat")
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		old := LD(acc, 0)
		v := e.list(st, e.Load(st, acc, nil))
		switch st.Truth(Eq(err, Nil())) {
		case N:
			c.must(e, st, in, st.IsNot(Eq(res[0], Nil())), "walk-error", "an entry that cannot be read is skipped without an error")
		case U:
			c.must(e, st, in, res[0] == err, "walk-error", "an entry that cannot be read may be skipped without an error")
		default:
			if w := unref(st.Get("staterr")); w != nil && st.IsNot(Eq(w, Nil())) {
				c.must(e, st, in, st.IsNot(Eq(res[0], Nil())), "walk-error", "an entry that cannot be read is skipped without an error")
				return
			}
			is, fol, reg := st.Truth(Call("isdir")), st.Truth(Call("isdir-followed")), st.Truth(Call("isregular"))
			if st.Truth(Call("isregular-followed")) == Y {
				fol = N
			}
			c.must(e, st, in, st.Is(Eq(res[0], Nil())), "stops", "the walk is stopped or a directory is skipped")
			yes := (fol == N || reg == Y) && extKnown(st, p) == Y
			no := is == Y || fol == Y || extKnown(st, p) == N
			if !yes && !no && is == N && extKnown(st, p) == Y {
				c.must(e, st, in, false, "link", "a link to a directory is taken for a file: it is not known what the entry is when links are followed")
				return
			}
			switch {
			case yes:
				c.must(e, st, in, v == Cat(old, Elems(p)), "added", "a YAML file is found but the list of files becomes %v", v)
			case no:
				c.must(e, st, in, v == old, "others", "something else than a YAML file is listed")
			default:
				c.must(e, st, in, false, "unknown", "it is not known whether the entry is a YAML file")
			}
		}
	}
	e := NewEngine(c.P, r)
	e.Run(f, nil, free, nil)
	c.collect(e, f)
}

// ---- loops over a list of entries that is changed on the way

type entryLoop struct {
	c   *Check
	key string
	// what became of an entry: "keep", "drop", "expand" ("" unknown)
	fate func(e *Engine, st *State, entry *Term) string
	// the value after expanding into old
	expanded func(e *Engine, st *State, entry, old, nw *Term) bool
	entry    func(e *Engine, st *State, in *ssa.BasicBlock) *Term
	is       func(l *Loop) bool
}

func phisOf(l *Loop, is func(t types.Type) bool) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if is(ph.Type()) {
			out = append(out, ph)
		}
	}
	return out
}

// whereOf: the list and position an entry was taken from.
func whereOf(entry *Term) (list, idx *Term) {
	if entry != nil && entry.op == OLD && entry.args[0].op == OEA {
		return entry.args[0].args[0], entry.args[0].args[1]
	}
	return nil, nil
}

func (a *entryLoop) onLoop(e *Engine, st *State, ev LoopEv) {
	if !a.is(ev.l) {
		return
	}
	c := a.c
	in := ev.l.header.Instrs[0]
	lists, ints := phisOf(ev.l, isFileList), phisOf(ev.l, isIntType)
	id := a.key + ":" + ref(ev.iter)
	switch ev.kind {
	case "enter":
		for _, ph := range append(append([]*ssa.Phi{}, lists...), ints...) {
			v := edgeVal(e, st, ph)
			if isFileList(ph.Type()) {
				v = e.list(st, v)
			}
			st.Set("keep:start:"+ref(phiTerm(ph, ev.ctx)), ref(v)+" ")
			st.Set("bad:"+id+ref(phiTerm(ph, ev.ctx)), "")
		}
		st.Set("bad:"+id, "")
		st.Set("keep:over:"+id, "")
		st.Set("keep:inplace:"+id, "")
	case "back":
		E := a.entry(e, st, st.top().block)
		L, idx := whereOf(E)
		if !c.must(e, st, in, L != nil, a.key+"-skipped", "an iteration over the entries is not known to deal with one entry") {
			st.Set("bad:"+id, "1")
			return
		}
		fate := a.fate(e, st, E)
		if !c.must(e, st, in, fate != "", a.key+"-fate", "what becomes of an entry is not known") {
			st.Set("bad:"+id, "1")
			return
		}
		for _, ph := range lists {
			pt := phiTerm(ph, ev.ctx)
			old, nw := st.top().env[ph], edgeVal(e, st, ph)
			if old == nil || nw == nil {
				st.Set("bad:"+id+ref(pt), "1")
				continue
			}
			old, nw = e.list(st, old), e.list(st, nw)
			ok := false
			if L == old {
				// the list itself is changed
				st.Set("keep:inplace:"+id, "1")
				step := false
				for _, ip := range ints {
					s := unref(st.Get("keep:start:" + ref(phiTerm(ip, ev.ctx))))
					if s == nil {
						continue
					}
					v := edgeVal(e, st, ip)
					k, z := s.isInt()
					if z && k == 0 && (fate == "keep" && v == AddN(idx, 1) || fate != "keep" && v == idx) {
						step = true
					}
					if z && k == -1 && (fate == "keep" && v == idx || fate != "keep" && v == AddN(idx, -1)) {
						step = true
					}
				}
				switch fate {
				case "keep":
					ok = step && nw == old
				case "drop":
					ok = step && nw == Remove(old, idx, AddN(idx, 1))
				default:
					if nw.op == OCat && len(nw.args) > 0 && nw.args[0] == Remove(old, idx, AddN(idx, 1)) {
						ok = step && a.expanded(e, st, E, Elems(), Cat(nw.args[1:]...))
					} else if st.Get("grownfrom:"+ref(nw)) == ref(Remove(old, idx, AddN(idx, 1)))+" " {
						ok = step && a.expanded(e, st, E, Remove(old, idx, AddN(idx, 1)), nw)
					} else if nw.args != nil && nw.op == Remove(old, idx, AddN(idx, 1)).op && len(nw.args) == 3 {
						g := nw.args[0]
						ok = step && nw == Remove(g, idx, AddN(idx, 1)) && a.expanded(e, st, E, old, g)
					}
				}
				c.must(e, st, in, ok, a.key+"-list", "the list of entries becomes %v for an entry that %s", nw, map[string]string{"keep": "stays", "drop": "is a duplicate", "expand": "is a directory"}[fate])
			} else {
				st.Set("keep:over:"+id, ref(L)+" ")
				switch fate {
				case "keep":
					sfx, t := tail(old, nw)
					ok = t && sfx == Elems(E)
				case "drop":
					ok = nw == old
				default:
					ok = a.expanded(e, st, E, old, nw)
				}
				if L == iterList(st, L, ev.iter, idx) {
					ok = ok && true
				} else {
					ok = false
				}
			}
			if !ok {
				st.Set("bad:"+id+ref(pt), "1")
			}
		}
	case "exit":
		if st.Get("bad:"+id) != "" {
			return
		}
		over := unref(st.Get("keep:over:" + id))
		for _, ph := range lists {
			pt := phiTerm(ph, ev.ctx)
			v := st.top().env[ph]
			if v == nil || st.Get("bad:"+id+ref(pt)) != "" {
				continue
			}
			v = e.list(st, v)
			ok := false
			if st.Get("keep:inplace:"+id) != "" || over == nil {
				for _, ip := range ints {
					s := unref(st.Get("keep:start:" + ref(phiTerm(ip, ev.ctx))))
					i := st.top().env[ip]
					if s == nil || i == nil {
						continue
					}
					k, z := s.isInt()
					ok = ok || z && k == 0 && st.Truth(Lt(i, LenOf(v))) == N || z && k == -1 && st.Truth(Lt(AddN(i, 1), LenOf(v))) == N
				}
				if ok {
					st.Set("finished:"+ref(v), unrefStart(st, pt))
				}
			}
			start := unref(st.Get("keep:start:" + ref(pt)))
			if over != nil && fullScan(st, ev.iter, over) != "" && start != nil {
				if isEmpty(start) {
					st.Set("finished:"+ref(v), ref(over)+" ")
				}
			}
			// no entries at all
			if st.Is(EqInt(ev.iter, Int(0))) && start != nil {
				if isEmpty(start) {
					st.Set("empty:"+ref(v), "1")
				}
			}
		}
	}
	if ev.kind == "back" {
		st.clearIter(ev.iter)
	}
}

func unrefStart(st *State, pt *Term) string {
	if s := st.Get("keep:start:" + ref(pt)); s != "" {
		return s
	}
	return "1"
}

// iterList: idx is the position of this iteration.
func iterList(st *State, l, it, idx *Term) *Term {
	if EA(l, it).args[1] == idx || st.Is(EqInt(it, idx)) {
		return l
	}
	return nil
}

// sameEntry: the term is an entry at the same position of the same list (which may have grown at its end meanwhile).
func sameEntry(st *State, t, entry *Term) bool {
	for i := 0; i < 4; i++ {
		if t == entry {
			return true
		}
		l, idx := whereOf(t)
		L, I := whereOf(entry)
		if l == nil || L == nil || idx != I {
			return false
		}
		if l == L {
			return true
		}
		if l.op == OCat && l.args[0] == L {
			return true
		}
		s := unref(st.Get("grownfrom:" + ref(l)))
		if s == nil {
			return false
		}
		t = LD(EA(s, idx), t.n)
		if s == L {
			return true
		}
	}
	return false
}

// entryField: v is the field of the entry.
func entryField(st *State, v, entry *Term, field string) bool {
	return v.op == OLD && v.args[0].op == OFA && v.args[0].s == field && sameEntry(st, v.args[0].args[0], entry)
}

func callsIn(P *Program, l *Loop, names ...string) bool {
	for b := range l.blocks {
		for _, in := range b.Instrs {
			n, callee := callName(in)
			for _, x := range names {
				if n == x || callee != nil && P.inRepo(callee) && P.reachesCall(callee, x) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Check) expands(f *ssa.Function, isLister map[*ssa.Function]bool, n map[string]int) {
	P := c.P
	var recv *Term
	for _, p := range f.Params {
		if isFileList(p.Type()) {
			recv = Param(p.Name(), p.Type())
		}
	}
	r := &Rule{Name: "expand"}
	r.Stop = func(g *ssa.Function) bool { return isLister[g] }
	outer := map[*Loop]bool{}
	isOuter := func(l *Loop) bool {
		v, ok := outer[l]
		if !ok {
			v = callsIn(P, l, "os.Stat", "os.Lstat")
			outer[l] = v
		}
		return v
	}
	// the entry whose path is v
	entryOf := func(st *State, v *Term) *Term {
		if v.op == OLD && v.args[0].op == OFA && v.args[0].s == "Path" {
			return v.args[0].args[0]
		}
		var found *Term
		for a, x := range st.mem {
			if a.op == OFA && a.s == "Path" && x == v && st.rootFresh(a) == nil {
				if found == nil || a.args[0].id < found.id {
					found = a.args[0]
				}
			}
		}
		return found
	}
	// the path is the entry's path, resolved and cleaned
	resolved := func(st *State, v, entry *Term) bool {
		clean := false
		if v.op == OCall && (v.s == "path.Clean" || v.s == "filepath.Clean") {
			v, clean = v.args[0], true
		}
		if v.op == OCall && (v.s == "path.Join" || v.s == "filepath.Join") {
			l := v.args[0]
			if l.op == OElems && len(l.args) == 2 && entryField(st, l.args[1], entry, "Path") {
				s, ok := Str(""), false
				if d := l.args[0]; d.op == OCall && d.s == "viper.GetString" {
					s = d.args[0]
					k, is := s.isStr()
					ok = is && strings.EqualFold(k, "instructionsDir")
				}
				return ok && (st.IsNot(Call("path.IsAbs", l.args[1])) || st.IsNot(Call("filepath.IsAbs", l.args[1])))
			}
			return false
		}
		return clean && entryField(st, v, entry, "Path") && (st.Is(Call("path.IsAbs", v)) || st.Is(Call("filepath.IsAbs", v)))
	}
	dirOf := func(st *State, E *Term) tri {
		if d := unref(st.Get("isdir")); d != nil && st.Get("entry") == ref(E)+" " {
			return st.Truth(d)
		}
		return U
	}
	r.Widen = isOuter
	a := &entryLoop{c: c, key: "expand", is: isOuter}
	a.entry = func(e *Engine, st *State, b *ssa.BasicBlock) *Term {
		if E := unref(st.Get("entry")); E != nil {
			return E
		}
		return unref(st.Get("stdin"))
	}
	a.fate = func(e *Engine, st *State, E *Term) string {
		if st.Get("stdin") == ref(E)+" " {
			n["kept"]++
			return "keep"
		}
		switch dirOf(st, E) {
		case Y:
			n["expanded"]++
			return "expand"
		case N:
			n["kept"]++
			return "keep"
		}
		return ""
	}
	a.expanded = func(e *Engine, st *State, E, old, nw *Term) bool {
		paths := unref(st.Get("paths"))
		if paths == nil || st.Get("pathsof") != ref(E) {
			return false
		}
		if unref(st.Get("grownfrom:"+ref(nw))) == old && st.Get("grownall:"+ref(nw)) == ref(paths) {
			return true
		}
		if sfx, ok := tail(old, nw); ok {
			if s := unref(st.Get("grownfrom:" + ref(sfx))); s != nil && st.Get("grownall:"+ref(sfx)) == ref(paths) {
				k, z := LenOf(s).isInt()
				return s.isNil() || z && k == 0
			}
			k, z := LenOf(sfx).isInt()
			return (sfx.isNil() || z && k == 0) && st.emptyList(paths)
		}
		return false
	}
	// lists that grow by one new entry per path
	grow := func(e *Engine, st *State, ev LoopEv) {
		if isOuter(ev.l) {
			return
		}
		paths := unref(st.Get("paths"))
		E := unref(st.Get("entry"))
		for _, ph := range phisOf(ev.l, isFileList) {
			pt := phiTerm(ph, ev.ctx)
			switch ev.kind {
			case "enter":
				st.Set("grownfrom:"+ref(pt), ref(e.list(st, edgeVal(e, st, ph)))+" ")
				st.Set("bad:grow:"+ref(pt), "")
			case "back":
				old, nw := st.top().env[ph], edgeVal(e, st, ph)
				ok := false
				if old != nil && paths != nil && E != nil {
					if sfx, t := tail(e.list(st, old), e.list(st, nw)); t && sfx.op == OElems && len(sfx.args) == 1 {
						x := sfx.args[0]
						el := LD(EA(paths, ev.iter), 0)
						ok = x.op == OAlloc && inLoop(x, ev.l, ev.ctx) && e.Load(st, FA(x, "Path"), types.Typ[types.String]) == el
						c.must(e, st, ev.l.header.Instrs[0], ok, "path", "the entry made for a file of a directory is not known to be a new one with the path of the file")
						for _, k := range []string{"Name", "Overlays", "Documents", "OutputPath"} {
							v := e.Load(st, FA(x, k), fieldType(P.typ("instructions", "YamlFile"), k))
							ok = c.must(e, st, ev.l.header.Instrs[0], entryField(st, v, E, k), "copied|"+k, "the %s of an entry made for a file of a directory is %v, not that of the directory's entry", k, v) && ok
						}
					}
				}
				if !ok {
					st.Set("bad:grow:"+ref(pt), "1")
				}
			case "exit":
				v := st.top().env[ph]
				if v != nil && paths != nil && st.Get("bad:grow:"+ref(pt)) == "" && fullScan(st, ev.iter, paths) != "" {
					v = e.list(st, v)
					if v != pt {
						st.Set("grownfrom:"+ref(v), st.Get("grownfrom:"+ref(pt)))
					}
					st.Set("grownall:"+ref(v), ref(paths))
				}
			}
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		grow(e, st, ev)
		a.onLoop(e, st, ev)
		if ev.kind == "back" && isOuter(ev.l) {
			st.drop("stdin", "entry", "paths", "info:", "isdir", "grownfrom:", "grownall:", "bad:grow:")
		}
	}
	r.OnBranch = func(e *Engine, st *State, t *Term, val bool, in ssa.Instruction) {
		for i := 0; i < 2 && val && t.op == OEq; i++ {
			if s, ok := t.args[i].isStr(); ok && s == "-" {
				if E := entryOf(st, t.args[1-i]); E != nil {
					st.Set("stdin", ref(E)+" ")
				}
			}
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		switch {
		case ev.name == "os.Stat" || ev.name == "os.Lstat":
			p := ev.args[0]
			E := entryOf(st, p)
			if !c.must(e, st, in, E != nil && ev.name == "os.Stat", "stat", "%v is checked for being a directory, which is not known to be the path of an entry", p) {
				return
			}
			c.must(e, st, in, resolved(st, p, E), "resolved", "the path of an entry becomes %v instead of the clean path, resolved against the directory of the instructions", p)
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, 2)
			st.Set("entry", ref(E)+" ")
			st.Set("info:"+ref(ev.results[0]), ref(E)+" ")
		case strings.HasSuffix(ev.name, ".IsDir") && !ev.repo:
			x := ev.args[0]
			if s := st.Get("info:" + ref(unwrap(x))); s != "" {
				d := Call("isdir", x)
				ev.handled = true
				ev.results = []*Term{d}
				st.Set("isdir", ref(d)+" ")
			}
		case isLister[ev.callee]:
			E := unref(st.Get("entry"))
			ok := E != nil
			for i, p := range ev.callee.Params {
				if isString(p.Type()) {
					ok = ok && ev.args[i] == e.Load(st, FA(E, "Path"), nil)
				}
			}
			c.must(e, st, in, ok, "walks", "the directory walked is not known to be the path of the entry")
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
			if E != nil {
				st.Set("paths", ref(ev.results[0])+" ")
				st.Set("pathsof", ref(E))
			}
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		if addr == recv {
			ok := st.Get("finished:"+ref(e.list(st, val))) != ""
			c.must(e, st, in, ok, "stored", "the list becomes %v, which is not known to be the complete list of entries", val)
			st.Set("stored", "1")
			return
		}
		if addr.op == OFA && st.rootFresh(addr) == nil && typeHasField(yamlFileT, addr.s) {
			c.must(e, st, in, addr.s == "Path", "changed", "%s of an entry is changed while directories are expanded", addr.s)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if i := lastError(f.Signature); i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		ok := st.Get("stored") != ""
		for i, v := range res {
			if isFileList(f.Signature.Results().At(i).Type()) {
				ok = st.Get("finished:"+ref(e.list(st, v))) != ""
			}
		}
		c.must(e, st, in, ok, "lost", "%s may succeed without storing the expanded list", fnLabel(f))
	}
	c.explore(f, r, nil, nil)
}

// isEmpty: a list without elements.
func isEmpty(t *Term) bool {
	if t.op == OSlice && t.args[1] == nil && t.args[2] != nil {
		k, ok := t.args[2].isInt()
		return ok && k == 0
	}
	k, ok := LenOf(t).isInt()
	return t.isNil() || ok && k == 0
}

// drop forgets everything noted under keys with one of the prefixes.
func (st *State) drop(prefix ...string) {
	for k := range st.kv {
		for _, p := range prefix {
			if strings.HasPrefix(k, p) {
				delete(st.kv, k)
			}
		}
	}
}

func typeHasField(typ, f string) bool {
	switch f {
	case "Name", "Overlays", "Documents", "Path", "OutputPath", "Nodes":
		return typ == yamlFileT
	}
	return false
}

func (c *Check) mergesFiles(f *ssa.Function, n map[string]int) {
	var recv *Term
	for _, p := range f.Params {
		if isFileList(p.Type()) {
			recv = Param(p.Name(), p.Type())
		}
	}
	r := &Rule{Name: "merge"}
	outer := map[*Loop]bool{}
	var hasLookup func(g *ssa.Function, bs map[*ssa.BasicBlock]bool, depth int) bool
	hasLookup = func(g *ssa.Function, bs map[*ssa.BasicBlock]bool, depth int) bool {
		for _, b := range g.Blocks {
			if bs != nil && !bs[b] {
				continue
			}
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && isFileMap(l.X.Type()) {
					return true
				}
				if _, callee := callName(in); callee != nil && c.P.inRepo(callee) && depth < 3 && hasLookup(callee, nil, depth+1) {
					return true
				}
			}
		}
		return false
	}
	isOuter := func(l *Loop) bool {
		v, ok := outer[l]
		if !ok {
			v = hasLookup(l.header.Parent(), l.blocks, 0)
			outer[l] = v
		}
		return v
	}
	type look struct{ m, k *Term }
	get := func(st *State) *look {
		m, k := unref(st.Get("lookm")), unref(st.Get("lookk"))
		if m == nil || k == nil {
			return nil
		}
		return &look{m, k}
	}
	entryOfKey := func(k *Term) *Term {
		if k.op == OLD && k.args[0].op == OFA && k.args[0].s == "Path" {
			return k.args[0].args[0]
		}
		return nil
	}
	// the entry registered before under the key
	registered := func(st *State, l *look) (*Term, tri) {
		var x *Term
		res := U
		see := func(t *Term) {
			if t.op == OCall && len(t.args) >= 2 && t.args[0] == l.m && t.args[1] == l.k {
				switch t.s {
				case "lookup":
					x = t
				}
			}
		}
		for t, v := range st.facts.b {
			t.any(func(s *Term) bool { see(s); return false })
			if t.op == OCall && t.s == "haskey" && t.args[0] == l.m && t.args[1] == l.k {
				if v {
					res = Y
				} else {
					res = N
				}
			}
		}
		for a := range st.mem {
			a.any(func(s *Term) bool { see(s); return false })
		}
		if res == U && x != nil {
			switch st.Truth(Eq(x, Nil())) {
			case Y:
				res = N
			case N:
				res = Y
			}
		}
		if res == U && x == nil {
			// the map is empty
			res = N
			for a := range st.mem {
				if a.op == OME && a.args[0] == l.m && a.args[1] != l.k {
					res = U
				}
			}
			if st.version(ME(l.m, l.k)) != 0 {
				res = U
			}
		}
		return x, res
	}
	r.Widen = isOuter
	a := &entryLoop{c: c, key: "merge", is: isOuter}
	a.entry = func(e *Engine, st *State, b *ssa.BasicBlock) *Term {
		if l := get(st); l != nil {
			return entryOfKey(l.k)
		}
		return nil
	}
	a.expanded = func(e *Engine, st *State, E, old, nw *Term) bool { return false }
	a.fate = func(e *Engine, st *State, E *Term) string {
		l := get(st)
		in := l0(st)
		reg, has := registered(st, l)
		switch has {
		case N:
			n["first"]++
			v, ok := st.mem[ME(l.m, l.k)]
			if !c.must(e, st, in, ok && v == E, "registered", "the first entry of a path is not registered under its path") {
				return ""
			}
			return "keep"
		case Y:
			n["merged"]++
			if reg == nil {
				reg = st.mem[ME(l.m, l.k)]
			}
			if reg == nil {
				return ""
			}
			for _, k := range []string{"Overlays", "Documents"} {
				v := e.list(st, e.Load(st, FA(reg, k), nil))
				ok := v.op == OCat && len(v.args) == 2 && v.args[0].op == OLD && v.args[0].args[0] == FA(reg, k) && v.args[1] == e.list(st, e.Load(st, FA(E, k), nil))
				c.must(e, st, in, ok, "append|"+k, "the %s of a file listed again become %v instead of those of the listings in order", k, v)
			}
			own := e.Load(st, FA(E, "OutputPath"), nil)
			v := e.Load(st, FA(reg, "OutputPath"), nil)
			kept := v.op == OLD && v.args[0] == FA(reg, "OutputPath")
			switch st.Truth(Eq(own, Str(""))) {
			case Y:
				c.must(e, st, in, kept, "output", "the output path of a file is changed by a listing without output path")
			case N:
				c.must(e, st, in, v == own, "output", "the output path of a further listing is not taken over")
			default:
				c.must(e, st, in, false, "output", "the output path of a file does not depend on whether a further listing has one")
			}
			return "drop"
		}
		return ""
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		if op == "lookup" && isFileMap(in.(*ssa.Lookup).X.Type()) {
			c.must(e, st, in, entryOfKey(args[1]) != nil, "key", "files are compared by %v instead of their path", args[1])
			if l := get(st); l != nil {
				c.must(e, st, in, l.k == args[1] && l.m == args[0], "keys", "an iteration looks up more than one path")
			}
			c.must(e, st, in, st.rootFresh(args[0]) != nil || args[0].op == OAlloc, "map", "the table of paths may be used by others")
			st.Set("lookm", ref(args[0])+" ")
			st.Set("lookk", ref(args[1])+" ")
		}
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		a.onLoop(e, st, ev)
		if ev.kind == "back" && isOuter(ev.l) {
			st.drop("lookm", "lookk")
		}
	}
	r.OnStore = func(e *Engine, st *State, addr, val *Term, in ssa.Instruction) {
		switch {
		case addr == recv:
			c.must(e, st, in, st.Get("finished:"+ref(e.list(st, val))) != "", "stored", "the list becomes %v, which is not known to be the complete list without duplicates", val)
			st.Set("stored", "1")
		case addr.op == OFA && typeHasField(yamlFileT, addr.s):
			switch addr.s {
			case "Overlays", "Documents", "OutputPath":
				l := get(st)
				ok := false
				if l != nil {
					reg, _ := registered(st, l)
					if x := addr.args[0]; reg == nil && x.op == OCall && x.s == "lookup" && x.args[0] == l.m && x.args[1] == l.k {
						reg = x
					}
					if reg == nil {
						reg = st.mem[ME(l.m, l.k)]
					}
					ok = addr.args[0] == reg
				}
				c.must(e, st, in, ok, "target", "%s of something else than the first listing of a file is changed", addr.s)
			default:
				c.must(e, st, in, false, "changed", "%s of an entry is changed while duplicates are merged", addr.s)
			}
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		ok := st.Get("stored") != ""
		for i, v := range res {
			if isFileList(f.Signature.Results().At(i).Type()) {
				ok = st.Get("finished:"+ref(e.list(st, v))) != ""
			}
		}
		c.must(e, st, in, ok, "lost", "%s may return without storing the merged list", fnLabel(f))
	}
	c.explore(f, r, nil, nil)
}

func l0(st *State) ssa.Instruction { return st.top().block.Instrs[0] }

// preparesFiles: expansion, then merging, of the list that is kept.
func (c *Check) preparesFiles(root *ssa.Function, isExp, isMerge map[*ssa.Function]bool, n map[string]int) {
	P := c.P
	r := &Rule{Name: "prepare", KeepAll: true}
	memo := map[*ssa.Function]bool{}
	r.Stop = func(f *ssa.Function) bool {
		if isExp[f] || isMerge[f] {
			return true
		}
		v, ok := memo[f]
		if !ok {
			for g := range isExp {
				v = v || P.reaches(f, g)
			}
			for g := range isMerge {
				v = v || P.reaches(f, g)
			}
			memo[f] = v
		}
		return !v
	}
	var recv *Term
	if root.Signature.Recv() != nil && isFileList(root.Params[0].Type()) {
		recv = Param(root.Params[0].Name(), root.Params[0].Type())
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		if ev.callee == nil || !isExp[ev.callee] && !isMerge[ev.callee] {
			return
		}
		var arg *Term
		for i, p := range ev.callee.Params {
			if isFileList(p.Type()) {
				arg = ev.args[i]
			}
		}
		if arg == nil {
			return
		}
		ptr := isPtrLike(arg) && ev.callee.Signature.Results().Len() < 2 && isPtr(paramOf(ev.callee, isFileList).Type())
		ev.handled = true
		ev.results = e.freshResults(st, ev.instr, ev.name, ev.common.Signature().Results().Len())
		before := arg
		if ptr {
			before = e.list(st, e.Load(st, arg, nil))
		}
		expanded := st.Get("expanded:"+ref(before)) != ""
		if before.op == OCat {
			// lists that are already kept and expanded ones
			expanded = true
			for _, p := range before.args {
				if st.Get("expanded:"+ref(p)) == "" && !keptList(p) {
					expanded = false
				}
			}
		}
		var after *Term
		if ptr {
			e.Havoc(st, arg, ev.instr, "files")
			after = e.list(st, e.Load(st, arg, nil))
			if after == before {
				after = Call("files", before, Int(e.ver("files"+ref(before)+fnLabel(ev.callee))))
			}
			e.Store(st, arg, after, nil)
		} else {
			for i, t := range ev.results {
				if isFileList(ev.common.Signature().Results().At(i).Type()) {
					after = t
				}
			}
		}
		if after == nil {
			return
		}
		if isExp[ev.callee] {
			st.Set("expanded:"+ref(after), ref(after)+" ")
		} else {
			c.must(e, st, ev.instr, expanded, "order", "duplicates are merged before directories are expanded")
			st.Set("expanded:"+ref(after), ref(after)+" ")
			st.Set("merged:"+ref(after), ref(after)+" ")
			st.Set("from:"+ref(after), ref(before)+" ")
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		i := lastError(root.Signature)
		if i >= 0 && st.IsNot(Eq(res[i], Nil())) {
			return
		}
		if recv != nil {
			n["lists"]++
			v := e.list(st, e.Load(st, recv, nil))
			c.must(e, st, in, st.Get("merged:"+ref(v)) != "", "kept", "the list of files %s keeps is not known to have its directories expanded and its duplicates merged", fnLabel(root))
			return
		}
		for a, v := range st.mem {
			if a.op == OFA && a.s == "YamlFiles" && st.rootFresh(a) == nil {
				n["lists"]++
				v = e.list(st, v)
				c.must(e, st, in, st.Get("merged:"+ref(v)) != "", "kept", "the list of files %s keeps is not known to have its directories expanded and its duplicates merged", fnLabel(root))
				if from := unref(st.Get("from:" + ref(v))); from != nil {
					kept := from.op == OCat && keptList(from.args[0]) && from.args[0].args[0] == a
					c.must(e, st, in, kept, "added", "the list of files becomes %v (before duplicates are merged) instead of the files listed before followed by further ones", from)
				}
			}
		}
		if len(st.listed("expanded:")) > 0 {
			kept := false
			for a := range st.mem {
				kept = kept || a.op == OFA && a.s == "YamlFiles"
			}
			c.must(e, st, in, kept, "forgotten", "%s may succeed without keeping the files it was given", fnLabel(root))
		}
	}
	c.explore(root, r, nil, nil)
}

func paramOf(f *ssa.Function, is func(t types.Type) bool) *ssa.Parameter {
	for _, p := range f.Params {
		if is(p.Type()) {
			return p
		}
	}
	return nil
}

// keptList: the list of files an instructions object has already.
func keptList(t *Term) bool {
	return t.op == OLD && t.args[0].op == OFA && t.args[0].s == "YamlFiles"
}
