package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnGetIns  = "(*instructions.Config).GetInstructions"
	fnApply   = "(*overlays.Overlay).Apply"
	fnChkIdx  = "(*overlays.Overlay).CheckDocumentIndex"
	fnChkPath = "(*instructions.Document).checkDocumentIndex"
)

// isOutput: functions that render a file and write it out.
func (P *Program) outputFns() map[*ssa.Function]bool {
	if P.outFns != nil {
		return P.outFns
	}
	out := map[*ssa.Function]bool{}
	for _, f := range P.PkgFuncs("instructions") {
		has := false
		for _, p := range f.Params {
			if typeName(deref(p.Type())) == "instructions.YamlFile" && isPtr(p.Type()) {
				has = true
			}
		}
		if !has {
			continue
		}
		enc, open := false, false
		for g := range P.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch n, _ := callName(in); n {
					case "(*yaml.Encoder).Encode", "yaml.Marshal":
						enc = true
					case "os.OpenFile", "os.Create", "os.WriteFile", "ioutil.WriteFile":
						open = true
					}
				}
			}
		}
		if enc && open {
			out[f] = true
		}
	}
	P.outFns = out
	return out
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// iters lists the iterations of the loops that are being executed, outside of and inside workers.
func (st *State) iters() (outer, inner []*Term) {
	in := false
	for _, f := range st.frames {
		in = in || f.call != nil && isSpawnIn(f.call)
		for l := range f.loops {
			if in {
				inner = append(inner, iterOf(l, f.ctx))
			} else {
				outer = append(outer, iterOf(l, f.ctx))
			}
		}
	}
	if !in {
		inner = outer
	}
	return outer, inner
}

// isSpawnIn: the instruction starts a goroutine.
func isSpawnIn(in ssa.Instruction) bool {
	if _, ok := in.(*ssa.Go); ok {
		return true
	}
	n, _ := callName(in)
	return isSpawnCall(n)
}

// ruleRun covers what Execute does with the files: which overlays are applied to which documents, in which order, and
// what is output when (C04, C05, C10).
func ruleRun(c *Check) {
	root := c.fn("instructions", "Execute")
	apply := c.fn("overlays", "(*Overlay).Apply")
	getIns := c.fn("instructions", "(*Config).GetInstructions")
	if root == nil || apply == nil || getIns == nil {
		return
	}
	order, scope, output := c.for_("C04"), c.for_("C05"), c.for_("C10")
	if order {
		c.rule("On every path of Execute (workers and goroutines expanded where they are started, channels as queues): for every file of the instructions one loop visits the documents in order, in it a loop visits the file's overlays in list order and after it a loop visits the document entries and the overlays of those whose path is the document's position, in list order; each visited overlay that is in scope is applied exactly once, either directly or by sending it through a queue whose receiver applies every item, one after another in its own goroutine, to completion before it takes the next one; the next one is only taken when the error is known to be nil, and the worker only succeeds after the queue was drained.")
	}
	if scope {
		c.rule("On every path of Execute an overlay is only applied to (or queued for) a document of the file it was taken from: an overlay of the file's list only where CheckDocumentIndex of that overlay and that document's position is known to be true, an overlay of a document entry only where the entry's path is known to be equal to the position. CheckDocumentIndex is true exactly when there is no index list or an element equals the position.")
	}
	if output {
		c.rule("On every path of Execute the output functions (taking a file, rendering and opening files) are only called after the loop over all files that runs their overlays, in the main goroutine, after Wait, when no worker has failed and no error is outstanding; they are called exactly once per file, in list order, directly or through a queue that is filled by one loop over the files and closed; the next file is only output when the error of the previous one is known to be nil, and success is only returned after the last file.")
	}
	outs := c.P.outputFns()
	c.least("output functions", len(outs), 1)
	applies := map[*ssa.Function]bool{}
	// goroutines that apply overlays are workers; others only queue
	reachesApply := func(f *ssa.Function) bool {
		v, ok := applies[f]
		if !ok {
			v = c.P.reaches(f, apply)
			applies[f] = v
		}
		return v
	}
	ins := Call("GetInstructions")
	I, ierr := Param("instructions", getIns.Signature.Results().At(0).Type()), Ext(ins, 1)
	files := Fld(I, "YamlFiles")
	type fileT struct{ k, f, nodes, ovs, docs *Term }
	fileOf := func(k *Term) fileT {
		f := El(files, k)
		return fileT{k, f, Fld(f, "Nodes"), Fld(f, "Overlays"), Fld(f, "Documents")}
	}
	n := map[string]int{}
	sites := map[string]map[ssa.Instruction]bool{"apply": {}, "submit": {}, "output": {}}
	r := &Rule{Name: "run", Stop: func(fn *ssa.Function) bool {
		nm := calleeName(fn)
		return nm == fnGetIns || nm == fnApply || nm == fnChkIdx || nm == fnChkPath || outs[fn]
	}}
	spawnDepth := func(st *State) (d, workers int) {
		for _, f := range st.frames {
			if f.call != nil && isSpawnIn(f.call) {
				d++
				if reachesApply(f.fn) {
					workers++
				}
			}
		}
		return
	}
	// elem recognises an element of a field's list: the base and the index
	elem := func(t *Term) (base *Term, field string, idx *Term) {
		if t.op != OLD || t.args[0].op != OEA {
			return
		}
		l := t.args[0].args[0]
		if l.op != OLD || l.args[0].op != OFA {
			return
		}
		return l.args[0].args[0], l.args[0].s, t.args[0].args[1]
	}
	isFile := func(t *Term) (k *Term) {
		if b, f, i := elem(t); b == I && f == "YamlFiles" {
			return i
		}
		return nil
	}
	// submission of overlay o for node nd
	submit := func(e *Engine, st *State, o, nd *Term, in ssa.Instruction) {
		sites["submit"][in] = true
		fb, ff, i := elem(nd)
		if !c.must(e, st, in, fb != nil && ff == "Nodes" && isFile(fb) != nil, "document", "%v, which is not a document of a listed file, is processed", nd) {
			return
		}
		ob, of, j := elem(o)
		kind := ""
		doc := ob
		if ob != nil && of == "Overlays" {
			if isFile(ob) != nil {
				kind = "file"
			} else if db, df, _ := elem(ob); db != nil && df == "Documents" && isFile(db) != nil {
				kind, ob = "doc", db
			}
		}
		if !c.must(e, st, in, kind != "", "overlay", "%v, which is neither an overlay of a file nor of one of its document entries, is applied", o) {
			return
		}
		n[kind]++
		if scope {
			c.must(e, st, in, ob == fb, "other-file", "an overlay of the file %v is applied to a document of the file %v", ob, fb)
			if kind == "file" {
				c.must(e, st, in, st.Is(Call("inscope", o, i)), "scope|file", "an overlay of a file is applied to a document although the overlay's document index list is not known to allow it")
			} else {
				c.must(e, st, in, st.Is(Eq(Fld(doc, "Path"), i)), "scope|entry", "an overlay of a document entry is applied to a document although the entry's path is not known to be the document's position")
			}
		}
		if order {
			key := "done:" + ref(o) + "," + ref(nd)
			c.must(e, st, in, st.Get(key) == "", "twice|"+kind, "an overlay is applied twice to the same document")
			st.Set(key, ref(i)+ref(j))
			if kind == "doc" {
				c.must(e, st, in, st.all("fo:"+ref(i), Fld(ob, "Overlays")) == "fwd", "order", "an overlay of a document entry is applied before all overlays of the file are known to have been applied to the document")
			}
		}
	}
	// field gives the field of the queued item that holds t
	field := func(t, item *Term) string {
		p := ""
		for t != item {
			switch {
			case t.op == OLD && t.args[0].op == OFA:
				p = t.args[0].s + "." + p
				t = t.args[0].args[0]
			case t.op == OLD:
				t = t.args[0]
			case t.op == OFA || t.op == OField:
				p = t.s + "." + p
				t = t.args[0]
			default:
				return ""
			}
		}
		return p
	}
	errDone := func(st *State) bool {
		ok := true
		for _, t := range st.listed("err:") {
			if !st.Is(Eq(t, Nil())) {
				ok = false
			}
		}
		return ok
	}
	clearErrs := func(st *State) {
		for _, t := range st.listed("err:") {
			st.Set("err:"+ref(t), "")
		}
	}
	// the item received last
	rx := func(st *State) (item, ch *Term, state string) {
		for _, t := range st.listed("rx:") {
			v := strings.SplitN(st.Get("rx:"+ref(t)), "|", 2)
			return t, unref(v[1]), v[0]
		}
		return nil, nil, ""
	}
	setRx := func(st *State, item, ch *Term, v string) { st.Set("rx:"+ref(item), v+"|"+ref(ch)) }
	r.RunGo = func(e *Engine, st *State, callee *ssa.Function, args []*Term, in ssa.Instruction) bool {
		reachesOut := false
		for o := range outs {
			reachesOut = reachesOut || c.P.reaches(callee, o)
		}
		d, w := spawnDepth(st)
		_ = d
		if order {
			c.must(e, st, in, !(w > 0 && reachesApply(callee)), "nested-worker", "overlays of a file are applied by several goroutines")
		}
		if output {
			c.must(e, st, in, !reachesOut, "output-goroutine", "files are output by a goroutine of its own")
		}
		return true
	}
	r.OnOp = func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) {
		switch op {
		case "send":
			ch, item := args[0], args[1]
			if output && isFile(item) != nil {
				k := isFile(item)
				d, _ := spawnDepth(st)
				c.must(e, st, in, d == 0, "queued-by-worker", "a file is queued for output by a goroutine, so the order depends on when it runs")
				c.must(e, st, in, st.Get("outq:"+ref(k)) == "" && st.Get("out:"+ref(k)) == "", "queued-twice", "a file is queued for output twice")
				st.Set("outq:"+ref(k), ref(ch))
				st.Set("keep:ch:"+ref(ch), "files "+ref(ch))
				return
			}
			if isFile(item) != nil {
				st.Set("keep:ch:"+ref(ch), "files "+ref(ch))
				return
			}
			if output {
				return
			}
			// a queued overlay: what its fields hold
			var o, nd *Term
			fo, fn := "", ""
			it := in.(*ssa.Send).X.Type()
			sct, _ := deref(it).Underlying().(*types.Struct)
			if sct == nil {
				return
			}
			for i := 0; i < sct.NumFields(); i++ {
				f := sct.Field(i)
				var v *Term
				if isPtr(it) {
					v = e.Load(st, FA(item, f.Name()), f.Type())
				} else {
					v = FieldOf(item, f.Name(), f.Type())
				}
				switch types.TypeString(f.Type(), short) {
				case "*overlays.Overlay":
					o, fo = v, f.Name()
				case "*yaml.Node":
					nd, fn = v, f.Name()
				}
			}
			if !c.must(e, st, in, o != nil && nd != nil, "queue-item", "what is queued (%v) does not hold an overlay and a document", item) {
				return
			}
			submit(e, st, o, nd, in)
			st.Set("keep:ch:"+ref(ch), "work "+fo+" "+fn+" "+ref(ch))
		case "recv":
			ch := args[0]
			item := e.site(st, in, "recv", 0)
			if old, och, s := rx(st); old != nil {
				if order && strings.HasPrefix(st.Get("keep:ch:"+ref(och)), "work") || output && strings.HasPrefix(st.Get("keep:ch:"+ref(och)), "files") {
					c.must(e, st, in, s == "applied", "skipped-item", "the next item is taken from the queue although the previous one was not handled")
					c.must(e, st, in, errDone(st), "ignored-error", "the next item is taken from the queue although the previous error is not known to be nil")
				}
				st.Set("rx:"+ref(old), "")
			}
			clearErrs(st)
			if st.Get("keep:ch:"+ref(ch)) == "" {
				st.Set("keep:ch:"+ref(ch), "empty "+ref(ch))
			}
			setRx(st, item, ch, "pending")
			okT := e.site(st, in, "recvok", 1)
			st.Set("keep:rxok:"+ref(ch), ref(okT))
		case "close":
			st.Set("keep:closed:"+ref(args[0]), ref(args[0]))
		}
	}
	fresh := func(e *Engine, st *State, ev *CallEv, kind string) {
		ev.handled = true
		nres := ev.common.Signature().Results().Len()
		ev.results = e.freshResults(st, ev.instr, ev.name, nres)
		for i := 0; i < nres; i++ {
			if isErrorType(ev.common.Signature().Results().At(i).Type()) {
				st.Set("err:"+ref(ev.results[i]), kind+" "+ref(ev.results[i]))
			}
		}
	}
	drained := func(st *State, ch *Term) bool {
		ok := unref(st.Get("keep:rxok:" + ref(ch)))
		return ok != nil && st.IsNot(ok) && st.Get("keep:closed:"+ref(ch)) != ""
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		_, workers := spawnDepth(st)
		switch {
		case ev.name == fnGetIns:
			ev.handled = true
			ev.results = []*Term{I, ierr}
			st.Set("err:"+ref(ierr), "ins "+ref(ierr))
		case ev.name == fnChkIdx:
			ev.handled = true
			ev.results = []*Term{Call("inscope", ev.args...)}
		case ev.name == fnChkPath:
			ev.handled = true
			ev.results = []*Term{Eq(Fld(ev.args[0], "Path"), ev.args[1])}
		case isSpawnCall(ev.name):
			fv := ev.args[1]
			if order || output {
				c.must(e, st, in, fv.fn != nil, "worker", "the worker started here could not be determined")
			}
			if fv.fn != nil {
				if order {
					c.must(e, st, in, !(workers > 0 && reachesApply(fv.fn)), "nested-worker", "overlays of a file are applied by several goroutines")
				}
				clearErrs(st)
				ev.run = fv
				st.Set("keep:group", ref(ev.args[0]))
				st.Set("keep:wait", "")
			}
		case isWait(ev.name):
			fresh(e, st, ev, "wait")
			st.Set("keep:wait", "1")
			if strings.HasPrefix(ev.name, "(*errgroup") && len(ev.results) == 1 {
				same := st.Get("keep:group") == ref(ev.args[0])
				if st.Get("keep:failed") != "" && same {
					st.dead = !st.facts.Assume(norm(Not(Eq(ev.results[0], Nil()))), true)
				} else if same || st.Get("keep:group") == "" {
					st.dead = !st.facts.Assume(norm(Eq(ev.results[0], Nil())), true)
				}
				if same || st.Get("keep:group") == "" {
					st.Set("keep:failed", "")
				}
			}
		case ev.name == fnApply:
			sites["apply"][in] = true
			o, nd := ev.args[0], ev.args[1]
			if item, ch, s := rx(st); item != nil && o.hasGen(func(t *Term) bool { return t == item }) {
				d := strings.Fields(st.Get("keep:ch:" + ref(ch)))
				if !output {
					if c.must(e, st, in, len(d) > 0 && d[0] == "work" || len(d) > 0 && d[0] == "empty", "queue", "an overlay is applied that was not queued by this worker") && d[0] == "work" {
						c.must(e, st, in, field(o, item) == d[1]+"." && field(nd, item) == d[2]+".", "queue-fields", "the overlay %v of a queued item is applied to %v", o, nd)
					}
				}
				if order {
					c.must(e, st, in, s == "pending", "twice|queue", "a queued overlay is applied twice")
				}
				setRx(st, item, ch, "applied")
			} else if !output {
				submit(e, st, o, nd, in)
			}
			if order {
				c.must(e, st, in, errDone(st), "ignored-error", "an overlay is applied although the previous error is not known to be nil")
			}
			clearErrs(st)
			fresh(e, st, ev, "apply")
		case ev.callee != nil && outs[ev.callee]:
			sites["output"][in] = true
			var f *Term
			for i, p := range ev.callee.Params {
				if typeName(deref(p.Type())) == "instructions.YamlFile" {
					f = ev.args[i]
				}
			}
			if output {
				d, _ := spawnDepth(st)
				c.must(e, st, in, d == 0, "output-goroutine", "a file is output by a goroutine of its own")
				c.must(e, st, in, st.all("ran", files) != "", "output-early", "a file is output before the overlays of all files are known to have been applied")
				c.must(e, st, in, st.Get("keep:group") == "" || st.Get("keep:wait") != "", "output-before-wait", "a file is output before Wait returned")
				c.must(e, st, in, st.Get("keep:failed") == "" && errDone(st), "output-after-error", "a file is output although an error of the overlays or of the previous file is not known to be nil")
				if k := isFile(f); k != nil {
					c.must(e, st, in, st.Get("out:"+ref(k)) == "" && st.Get("outq:"+ref(k)) == "", "output-twice", "a file is output twice")
					st.Set("out:"+ref(k), "1")
				} else {
					item, ch, s := rx(st)
					if c.must(e, st, in, item != nil && f == item, "output-file", "%v, which is not a listed file, is output", f) {
						c.must(e, st, in, s == "pending", "output-twice", "a queued file is output twice")
						w := strings.Fields(st.Get("keep:ch:" + ref(ch)))
						c.must(e, st, in, len(w) > 0, "output-queue", "an item of an unknown queue is output")
						setRx(st, item, ch, "applied")
					}
				}
			}
			clearErrs(st)
			fresh(e, st, ev, "out")
		}
	}
	r.OnRet = func(e *Engine, st *State, fn *ssa.Function, call ssa.Instruction, res []*Term) {
		if call == nil || !isSpawnIn(call) || !reachesApply(fn) {
			return
		}
		var in ssa.Instruction = call
		// the end of a worker
		st.with(func(s *State) { // success
			ks, _ := s.iters()
			for _, k := range ks {
				if s.all("node", fileOf(k).nodes) == "fwd" {
					st.Set("ran:"+ref(k), "1")
				}
			}
			n["workers"]++
			if order {
				c.must(e, st, in, errDone(s), "dropped-error", "a worker succeeds although the error of an overlay is not known to be nil")
			}
			for _, ch := range s.listed("keep:ch:") {
				if order && strings.HasPrefix(s.Get("keep:ch:"+ref(ch)), "work") {
					c.must(e, st, in, drained(s, ch), "not-drained", "a worker succeeds although its queue is not known to have been processed to the end")
				}
			}
		}, okResult(res)...)
		if len(res) == 1 {
			st.with(func(s *State) { // failure
				some := false
				for _, t := range s.listed("err:") {
					some = some || s.IsNot(Eq(t, Nil()))
				}
				if order {
					c.must(e, st, in, some, "error-without-cause", "a worker fails although no overlay is known to have failed")
				}
				ks, _ := s.iters()
				for _, k := range ks {
					st.Set("ran:"+ref(k), "1")
				}
				n["failing"]++
			}, Not(Eq(res[0], Nil())))
			if !st.Is(Eq(res[0], Nil())) {
				st.Set("keep:failed", "1")
			}
		}
		for _, p := range []string{"keep:ch:", "keep:closed:", "keep:rxok:"} {
			for _, ch := range st.listed(p) {
				st.Set(p+ref(ch), "")
			}
		}
		if item, _, _ := rx(st); item != nil {
			st.Set("rx:"+ref(item), "")
		}
		clearErrs(st)
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind == "back" {
			if order || output {
				c.must(e, st, ev.l.header.Instrs[0], errDone(st), "ignored-error", "work continues although an error is not known to be nil")
			}
			clearErrs(st)
		}
		outer, its := st.iters()
		var fl []fileT
		for _, k := range outer {
			fl = append(fl, fileOf(k))
		}
		var nodes, ovs, docs, dovs []*Term
		for _, f := range fl {
			nodes, ovs, docs = append(nodes, f.nodes), append(ovs, f.ovs), append(docs, f.docs)
			for _, d := range its {
				dovs = append(dovs, Fld(El(f.docs, d), "Overlays"))
			}
		}
		// done: overlay o was applied to document i, or is not in scope there
		done := func(o, i *Term, inScope *Term) bool {
			for _, f := range fl {
				if st.Get("done:"+ref(o)+","+ref(El(f.nodes, i))) != "" {
					return true
				}
			}
			return inScope != nil && st.IsNot(inScope)
		}
		if order {
			for _, i := range its {
				p := ref(i)
				st.forAll(ev, "do:"+p, dovs, func(l, idx, el *Term) bool { return done(el, i, nil) })
				st.forAll(ev, "doc:"+p, docs, func(l, idx, el *Term) bool {
					return st.IsNot(Eq(Fld(el, "Path"), i)) || st.all("do:"+p, Fld(el, "Overlays")) == "fwd"
				})
				st.forAll(ev, "fo:"+p, ovs, func(l, idx, el *Term) bool { return done(el, i, Call("inscope", el, i)) })
			}
		}
		st.forAll(ev, "node", nodes, func(l, idx, el *Term) bool {
			if !order {
				return true
			}
			for _, f := range fl {
				if f.nodes == l {
					return st.all("fo:"+ref(idx), f.ovs) == "fwd" && st.all("doc:"+ref(idx), f.docs) == "fwd"
				}
			}
			return false
		})
		st.forAll(ev, "ran", []*Term{files}, func(l, idx, el *Term) bool { return st.Get("ran:"+ref(idx)) != "" || st.emptyList(Fld(el, "Nodes")) })
		if output {
			st.forAll(ev, "out", []*Term{files}, func(l, idx, el *Term) bool {
				return st.Get("out:"+ref(idx)) != "" && errDone(st) || st.Get("outq:"+ref(idx)) != ""
			})
		}
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) != 1 {
			return
		}
		st.with(func(s *State) {
			n["success"]++
			if order {
				c.must(e, st, in, s.all("ran", files) == "fwd", "not-all-files", "success is returned although not every file is known to have been processed completely")
				c.must(e, st, in, s.Get("keep:failed") == "", "dropped-failure", "success is returned although a worker may have failed")
			}
			if output {
				c.must(e, st, in, s.all("out", files) == "fwd", "not-all-output", "success is returned although not every file is known to have been output in the order in which they are listed")
				c.must(e, st, in, errDone(s) && s.Get("keep:failed") == "", "dropped-error", "success is returned although an error is not known to be nil")
				for _, ch := range s.listed("keep:ch:") {
					if strings.HasPrefix(s.Get("keep:ch:"+ref(ch)), "files") {
						c.must(e, st, in, drained(s, ch), "not-drained", "success is returned although the queue of the files is not known to have been processed to the end")
					}
				}
			}
		}, Eq(res[0], Nil()))
		st.with(func(s *State) {
			n["failure"]++
			some := false
			for _, t := range s.listed("err:") {
				some = some || s.IsNot(Eq(t, Nil()))
			}
			if output {
				c.must(e, st, in, some, "error-without-cause", "an error is returned although nothing is known to have failed")
			}
		}, Not(Eq(res[0], Nil())))
	}
	c.explore(root, r, nil, nil)
	c.least("places where output functions are called", len(sites["output"]), 1)
	c.least("successful ends of a run", n["success"], 1)
	c.least("failing ends of a run", n["failure"], 1)
	c.least("ends of a worker", n["workers"], 1)
	if !output {
		c.least("places where overlays are applied", len(sites["apply"]), 1)
		c.least("overlays of files that are applied", n["file"], 1)
		c.least("overlays of document entries that are applied", n["doc"], 1)
	}
}

// okResult: what holds when a function reports success.
func okResult(res []*Term) []*Term {
	if len(res) == 1 {
		return []*Term{Eq(res[0], Nil())}
	}
	return nil
}

// ruleIndexChecks: what being in scope means (C05).
func ruleIndexChecks(c *Check) {
	c.rule("CheckDocumentIndex returns true only where the index list is known to be missing or an element of it is known to equal the given position, and false only where the list is present and, in a loop over all its elements, every one is known to be different; checkDocumentIndex returns whether the entry's path equals the position.")
	if root := c.fn("overlays", "(*Overlay).CheckDocumentIndex"); root != nil {
		o, cur := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
		list := Fld(o, "DocumentIndex")
		t, f := 0, 0
		r := &Rule{Name: "index"}
		r.OnBranch = func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction) {
			if val && atom.op == OEq && (atom.args[0] == cur || atom.args[1] == cur) {
				x := atom.args[0]
				if x == cur {
					x = atom.args[1]
				}
				if x.op == OLD && x.args[0].op == OEA && x.args[0].args[0] == list {
					st.Set("keep:hit", "1")
				}
			}
		}
		r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
			st.forAll(ev, "ne", []*Term{list}, func(l, idx, el *Term) bool { return st.IsNot(Eq(el, cur)) })
			if ev.kind != "exit" {
				st.clearIter(ev.iter)
			}
		}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			st.with(func(s *State) {
				t++
				hit := s.Get("keep:hit") != ""
				for a, v := range s.facts.b {
					if v && a.op == OEq {
						for i := 0; i < 2; i++ {
							x := a.args[1-i]
							if a.args[i] == cur && x.op == OLD && x.args[0].op == OEA && x.args[0].args[0] == list {
								hit = true
							}
						}
					}
				}
				c.must(e, st, in, hit || s.Is(Eq(list, Nil())), "true", "a document is in scope although neither the index list is known to be missing nor an element of it is known to be the document's position")
			}, res[0])
			st.with(func(s *State) {
				f++
				c.must(e, st, in, s.all("ne", list) != "" || s.emptyList(list), "false", "a document is out of scope although not every element of the index list is known to differ from its position")
				c.must(e, st, in, s.IsNot(Eq(list, Nil())), "false-nil", "a document is out of scope although the overlay may have no index list")
				c.must(e, st, in, s.Get("keep:hit") == "", "false-hit", "a document is out of scope although an element of the index list is its position")
			}, Not(res[0]))
		}
		c.explore(root, r, nil, nil)
		c.least("paths of CheckDocumentIndex in scope", t, 2)
		c.least("paths of CheckDocumentIndex out of scope", f, 1)
	}
	if root := c.fn("instructions", "(*Document).checkDocumentIndex"); root != nil {
		d, cur := Param(root.Params[0].Name(), root.Params[0].Type()), Param(root.Params[1].Name(), root.Params[1].Type())
		r := &Rule{Name: "path"}
		r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
			eq := Eq(Fld(d, "Path"), cur)
			st.with(func(s *State) {
				c.must(e, st, in, s.Is(eq), "entry-true", "a document entry applies to a document whose position is not known to be the entry's path")
			}, res[0])
			st.with(func(s *State) {
				c.must(e, st, in, s.IsNot(eq), "entry-false", "a document entry does not apply to a document whose position may be the entry's path")
			}, Not(res[0]))
		}
		c.explore(root, r, nil, nil)
	}
}
