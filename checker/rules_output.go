package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- effects on the file system and standard output

// fsWrites: library functions that change the file system.
func fsWrites(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.WriteFile", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp", "os.CreateTemp", "os.Remove", "os.RemoveAll", "os.Rename",
		"os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes", "os.Truncate", "os.Symlink", "os.Link", "os.Chdir", "os.CopyFS", "os.OpenRoot",
		"(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown", "(*os.File).WriteAt", "(*os.File).ReadFrom",
		"os.StartProcess", "os.NewFile":
		return true
	}
	switch pkgOfName(n) {
	case "exec", "syscall", "unix", "ioutil", "afero", "plugin":
		return !strings.HasPrefix(n, "ioutil.Read") && n != "ioutil.NopCloser"
	case "viper":
		return strings.Contains(n, "WriteConfig") || strings.Contains(n, "WatchConfig")
	case "doc":
		return strings.HasPrefix(n, "doc.Gen")
	case "cobra":
		return strings.Contains(n, ").Gen") && strings.HasSuffix(n, "File")
	}
	return false
}

func (e *Engine) pureCall(st *State, ev *CallEv, name string) {
	la := make([]*Term, len(ev.args))
	for i, a := range ev.args {
		la[i] = e.list(st, a)
	}
	if name == "path.Clean" && la[0].op == OCall && (la[0].s == "path.Join" || la[0].s == "path.Clean") {
		ev.results = []*Term{la[0]}
	} else {
		ev.results = []*Term{Call(name, la...)}
	}
	ev.handled = true
}

// normPath treats path and path/filepath alike and settings by their case insensitive name.
func normPath(e *Engine, st *State, ev *CallEv) bool {
	switch ev.name {
	case "filepath.Join", "filepath.Dir", "filepath.Base", "filepath.Ext", "filepath.Clean", "filepath.IsAbs":
		e.pureCall(st, ev, "path."+ev.name[len("filepath."):])
		return true
	case "path.Join", "path.Dir", "path.Base", "path.Ext", "path.Clean", "path.IsAbs":
		e.pureCall(st, ev, ev.name)
		return true
	}
	if strings.HasPrefix(ev.name, "viper.Get") && len(ev.args) == 1 {
		if s, ok := ev.args[0].isStr(); ok {
			ev.handled = true
			ev.results = []*Term{Call(ev.name, Str(strings.ToLower(s)))}
			return true
		}
	}
	return false
}

func isStdGlobal(t *Term, name string) bool {
	return t.op == OLD && t.args[0].op == OGlobal && (t.args[0].s == name || strings.HasSuffix(t.args[0].s, "/"+name))
}

// outputRoots: the outermost functions that render and write a file.
func (P *Program) outputRoots() []*ssa.Function {
	outs := P.outputFns()
	var roots []*ssa.Function
	for _, f := range sortedFns(outs) {
		top := true
		for g := range outs {
			if g != f && P.reaches(g, f) && !P.reaches(f, g) {
				top = false
			}
		}
		if top {
			roots = append(roots, f)
		}
	}
	return roots
}

// ruleOutput: rendering and writing one file (C11, C12, C13, C14).
func ruleOutput(c *Check) {
	roots := c.P.outputRoots()
	c.least("output functions", len(roots), 1)
	content, place, effects, std := c.for_("C13"), c.for_("C12"), c.for_("C11"), c.for_("C14")
	if content {
		c.rule("On every path of the output function (taking a file, rendering and opening files): the encoder writes to a buffer; before the first document exactly the text of a separator line is written to it; one loop over the file's documents encodes exactly those documents whose content is known not to be empty, each once, in list order, with the error known to be nil before the next one; the encoder is closed before the buffer is looked at; on success the buffer was written out exactly once, as a whole, without error, or no document had content and nothing was opened or written. Nothing but Style of a node is written.")
	}
	if place {
		c.rule("On every path of the output function a file is opened under the output path itself where it is known to be absolute and under Join(outputDirectory setting, output path) where it is known not to be; its directory was created with MkdirAll without error or Stat is known not to report it missing; it is opened for writing with O_CREATE and O_TRUNC and without O_EXCL and O_APPEND.")
	}
	if effects {
		c.rule("On every path of the output function the file system is only changed where the stdout setting is known to be off, and only by MkdirAll of the directory of the output file and by opening the output file.")
	}
	if std {
		c.rule("On every path of the output function standard output only receives the rendered buffer, where the stdout setting is known to be on, or one line with exactly the name of the file that was opened, once for each file, where it is known to be off.")
	}
	n := map[string]int{}
	for _, f := range roots {
		c.outputFn(f, n)
	}
	if content {
		c.least("documents encoded", n["encode"], 1)
		c.least("successful paths that wrote a file", n["written"], 2)
		c.least("successful paths without a document", n["empty"], 1)
		c.nodeWrites(roots)
	}
	if place {
		c.least("files opened", n["open"], 2)
	}
	if effects || std {
		c.least("places that write a file", n["open"], 1)
	}
	if std {
		c.least("rendered output to standard output", n["stdout"], 1)
		c.least("file names to standard output", n["name"], 1)
	}
}

// nodeWrites: rendering writes no field of a node but Style.
func (c *Check) nodeWrites(roots []*ssa.Function) {
	stores := 0
	for _, f := range sortedFns(c.P.reach(roots...)) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				stores++
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "yaml.Node" {
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					fld := fieldName(deref(fa.X.Type()), fa.Field)
					c.Must(fld == "Style", "node-write|"+fnLabel(f)+"|"+fld, c.P.ipos(in), "%s of a node is changed while a file is rendered", fld)
				}
				if typeName(deref(s.Addr.Type())) == "yaml.Node" {
					if _, fresh := s.Addr.(*ssa.Alloc); !fresh {
						c.Must(false, "node-write|"+fnLabel(f), c.P.ipos(in), "a node is overwritten while a file is rendered")
					}
				}
				if ia, ok := s.Addr.(*ssa.IndexAddr); ok && typeName(deref(s.Val.Type())) == "yaml.Node" {
					if a, ok := ia.X.(*ssa.Alloc); !ok || a.Comment != "varargs" && a.Comment != "slicelit" {
						c.Must(false, "list-write|"+fnLabel(f), c.P.ipos(in), "a list of nodes is changed while a file is rendered")
					}
				}
			}
		}
	}
	c.least("writes below the output function", stores, 1)
}

func (c *Check) outputFn(root *ssa.Function, n map[string]int) {
	content, place, effects, std := c.for_("C13"), c.for_("C12"), c.for_("C11"), c.for_("C14")
	var F *Term
	for _, p := range root.Params {
		if typeName(deref(p.Type())) == "instructions.YamlFile" {
			F = Param(p.Name(), p.Type())
		}
	}
	nodes, OP := Fld(F, "Nodes"), Fld(F, "OutputPath")
	// the documents with content, collected first
	kept := &filtered{key: "docs", list: nodes,
		is_: func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && nodePtr(s.Elem())
		},
		keep: func(e *Engine, st *State, el *Term) tri {
			cl := e.Load(st, FA(el, "Content"), nil)
			if st.someList(cl) || st.Is(Leq(Int(1), LenOf(e.list(st, cl)))) {
				return Y
			}
			if st.emptyList(cl) {
				return N
			}
			return U
		}}
	allEnc := func(st *State) bool {
		for _, l := range append(kept.lists(st), nodes) {
			if st.all("enc", l) == "fwd" || l != nodes && st.emptyList(l) {
				return true
			}
		}
		return false
	}
	stdout := Call("viper.GetBool", Str("stdout"))
	abs := Call("path.IsAbs", OP)
	joined := Call("path.Join", Elems(Call("viper.GetString", Str("outputdirectory")), OP))
	okName := func(st *State, t *Term) bool {
		switch {
		case st.Is(abs):
			return t == OP || t == Call("path.Clean", OP)
		case st.IsNot(abs):
			return t == joined
		}
		return false
	}
	dirOf := func(t *Term) *Term { return Call("path.Dir", t) }
	okDir := func(st *State, t *Term) bool {
		switch {
		case st.Is(abs):
			return t == dirOf(OP) || t == dirOf(Call("path.Clean", OP))
		case st.IsNot(abs):
			return t == dirOf(joined)
		}
		return false
	}
	setters := map[*ssa.Function]bool{}
	r := &Rule{Name: "output", Stop: func(f *ssa.Function) bool {
		if pkgShort(f) != "actions" {
			return false
		}
		for _, p := range f.Params {
			t := deref(p.Type())
			if l, ok := isSlice(t); ok {
				t = deref(l)
			}
			if typeName(t) == "yaml.Node" {
				setters[f] = true
				return true
			}
		}
		return false
	}}
	phase := func(st *State, b *Term) string { return st.Get("keep:buf:" + ref(b)) }
	setPhase := func(st *State, b *Term, p string) { st.Set("keep:buf:"+ref(b), p+" "+ref(b)) }
	is := func(st *State, b *Term, p string) bool { return strings.HasPrefix(phase(st, b), p+" ") }
	bufs := func(st *State) []*Term { return st.listed("keep:buf:") }
	text := func(st *State, b *Term) (string, bool) {
		p := phase(st, b)
		if !strings.HasPrefix(p, "text:") {
			return "", false
		}
		return strings.TrimSuffix(p[5:], " "+ref(b)), true
	}
	buffer := func(e *Engine, st *State, t *Term) *Term {
		t = unwrap(t)
		if phase(st, t) != "" {
			return t
		}
		if t.op == OAlloc {
			switch typeName(deref(t.typ)) {
			case "bytes.Buffer", "strings.Builder":
				setPhase(st, t, "text:")
				return t
			}
		}
		return nil
	}
	isFile := func(st *State, t *Term) bool { return st.Get("keep:file:"+ref(t)) != "" }
	fail := func(st *State, err *Term) { st.Set("keep:err:"+ref(err), "1 "+ref(err)) }
	noErr := func(st *State) bool {
		for _, t := range st.listed("keep:err:") {
			if !st.Is(Eq(t, Nil())) {
				return false
			}
		}
		return true
	}
	// payload: the buffer t is the content of
	payload := func(t *Term) *Term {
		t = unwrap(t)
		for t.op == OCall && (strings.HasPrefix(t.s, "conv:") || t.s == "bytes") {
			t = t.args[0]
		}
		if t.op == OCall && t.s == "content" {
			return t
		}
		return nil
	}
	opened := func(e *Engine, st *State, in ssa.Instruction, name *Term) {
		n["open"]++
		if effects {
			c.must(e, st, in, st.IsNot(stdout), "file-with-stdout", "a file is opened for writing although output is not known not to go to standard output")
			c.must(e, st, in, okName(st, name), "other-file", "the file %v, which is not the output file, is opened for writing", name)
		}
		if place {
			c.must(e, st, in, okName(st, name), "name", "a file with the output path %v (absolute: %s) is written to %v", OP, yn(st.Truth(abs)), name)
			D := dirOf(name)
			ok := false
			if m := unref(st.Get("keep:mk:" + ref(D))); m != nil {
				ok = st.Is(Eq(m, Nil()))
			}
			if s := unref(st.Get("keep:stat:" + ref(D))); s != nil && !ok {
				ok = st.Is(Eq(s, Nil())) || st.IsNot(Call("os.IsNotExist", s))
				for t := range st.facts.b {
					if t.op == OCall && t.s == "errors.Is" && unwrap(t.args[0]) == s && strings.HasSuffix(t.args[1].String(), ".ErrNotExist") && st.IsNot(t) {
						ok = true
					}
				}
			}
			c.must(e, st, in, ok, "directory", "the directory of the output file %v is not known to exist when the file is opened", name)
		}
		if content {
			ok := false
			for _, b := range bufs(st) {
				ok = ok || is(st, b, "closed")
			}
			c.must(e, st, in, ok, "early-open", "the output file is opened although it is not known that there is completely rendered output")
		}
	}
	// write is text or content going to dest
	write := func(e *Engine, st *State, in ssa.Instruction, dest, pay *Term, err *Term) {
		dest = unwrap(dest)
		toStd, toFile := isStdGlobal(dest, "os.Stdout"), isFile(st, dest)
		if isStdGlobal(dest, "os.Stderr") {
			return
		}
		if b := buffer(e, st, dest); b != nil {
			s, ok := pay.isStr()
			t, pre := text(st, b)
			if content {
				c.must(e, st, in, ok && pre, "text", "%v is written between the documents", pay)
			}
			setPhase(st, b, "text:"+t+s)
			return
		}
		p := payload(pay)
		if p == nil {
			if std && toStd {
				ok := false
				for _, nm := range st.listed("keep:name:") {
					if pay == Concat(nm, Str("\n")) {
						ok = true
						c.must(e, st, in, strings.HasPrefix(st.Get("keep:name:"+ref(nm)), "new "), "name-twice", "the name of an output file is written twice to standard output")
						h := unref(strings.Fields(st.Get("keep:name:" + ref(nm)))[1])
						c.must(e, st, in, h != nil && st.Is(Eq(h, Nil())), "name-failed", "the name of a file that is not known to be opened is written to standard output")
						st.Set("keep:name:"+ref(nm), "done "+ref(nm))
						n["name"]++
					}
				}
				c.must(e, st, in, ok, "stdout-text", "%v is written to standard output", pay)
				c.must(e, st, in, st.IsNot(stdout), "stdout-name", "a file name is written to standard output although it is not known to be free of results")
			}
			if content {
				c.must(e, st, in, toStd, "other-text", "%v, which is not the rendered file, is written to %v", pay, dest)
			}
			return
		}
		b := p.args[0]
		if toStd {
			n["stdout"]++
		}
		if content {
			c.must(e, st, in, toStd || toFile, "destination", "the rendered file is written to %v", dest)
			ph, _ := p.args[1].isStr()
			c.must(e, st, in, ph == "closed" && is(st, b, "closed"), "unfinished", "output is written although rendering is not finished (or was written before)")
			c.must(e, st, in, allEnc(st), "not-all", "output is written although the documents of the file are not known to have been rendered completely")
			c.must(e, st, in, noErr(st), "ignored-error", "output is written although a previous error is not known to be nil")
		}
		if std && toStd {
			c.must(e, st, in, st.Is(stdout), "stdout-off", "rendered documents are written to standard output although the setting is not known to be on")
		}
		if place && !toStd || content && !toStd {
			c.must(e, st, in, st.IsNot(stdout), "file-off", "rendered documents are written to a file although output is not known not to go to standard output")
		}
		setPhase(st, b, "out")
		if err != nil {
			fail(st, err)
		} else if content {
			c.must(e, st, in, false, "write-error", "the error of writing the rendered file is lost")
		}
	}
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		res := func() []*Term {
			ev.handled = true
			ev.results = e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
			return ev.results
		}
		last := func(r []*Term) *Term {
			if len(r) == 0 {
				return nil
			}
			return r[len(r)-1]
		}
		if normPath(e, st, ev) {
			return
		}
		switch {
		case setters[ev.callee]:
			ev.handled = true
		case ev.name == "yaml.NewEncoder":
			b := buffer(e, st, ev.args[0])
			if content {
				c.must(e, st, in, b != nil, "direct", "documents are rendered directly to %v", ev.args[0])
			}
			r := res()
			if b != nil {
				st.Set("keep:enc:"+ref(r[0]), ref(b))
				st.facts.Assume(norm(Not(Eq(r[0], Nil()))), true)
			}
		case ev.name == "bytes.NewBuffer", ev.name == "bytes.NewBufferString":
			r := res()
			s, ok := ev.args[0].isStr()
			if !ok && !ev.args[0].isNil() && content {
				c.must(e, st, in, false, "buffer", "a buffer with unknown content is used")
			}
			setPhase(st, r[0], "text:"+s)
		case ev.name == "(*yaml.Encoder).SetIndent":
			ev.handled = true
		case ev.name == "(*yaml.Encoder).Encode":
			n["encode"]++
			b := unref(st.Get("keep:enc:" + ref(ev.args[0])))
			r := res()
			if b == nil || !content {
				if b != nil {
					setPhase(st, b, "docs")
				}
				return
			}
			t, pre := text(st, b)
			if pre {
				c.must(e, st, in, t == "---\n", "separator", "the first document is rendered after %q instead of a separator line", t)
			} else {
				c.must(e, st, in, is(st, b, "docs"), "late", "a document is rendered after rendering was finished")
			}
			setPhase(st, b, "docs")
			d := unwrap(ev.args[1])
			from, _ := whereOf(d)
			if !c.must(e, st, in, from == nodes || from != nil && kept.is(st, from), "document", "%v, which is not a document of the file, is rendered", d) {
				return
			}
			k := d.args[0].args[1]
			c.must(e, st, in, st.Get("encd:"+ref(k)) == "", "twice", "a document is rendered twice")
			st.Set("encd:"+ref(k), ref(r[0]))
			cl := e.Load(st, FA(d, "Content"), nil)
			c.must(e, st, in, from != nodes || st.someList(cl) || st.Is(Leq(Int(1), LenOf(e.list(st, cl)))), "empty", "a document is rendered that is not known to have content")
		case ev.name == "(*yaml.Encoder).Close":
			b := unref(st.Get("keep:enc:" + ref(ev.args[0])))
			if b != nil && is(st, b, "docs") {
				setPhase(st, b, "closed")
			} else if b != nil && content {
				_, pre := text(st, b)
				c.must(e, st, in, pre, "closed-twice", "the encoder is closed twice")
			}
			res()
		case strings.HasPrefix(ev.name, "(*bytes.Buffer).") || strings.HasPrefix(ev.name, "(*strings.Builder)."):
			b := buffer(e, st, ev.args[0])
			if b == nil {
				return
			}
			switch ev.name[strings.LastIndex(ev.name, ".")+1:] {
			case "WriteString", "WriteByte", "WriteRune", "Write":
				v := ev.args[1]
				if p := unwrap(v); p.op == OCall && (p.s == "bytes" || strings.HasPrefix(p.s, "conv:")) {
					v = p.args[0]
				}
				if x, ok := v.isInt(); ok {
					v = Str(string(rune(x)))
				}
				write(e, st, in, b, v, nil)
				res()
			case "Len":
				if t, pre := text(st, b); pre {
					ev.handled = true
					ev.results = []*Term{Int(int64(len(t)))}
				} else if !is(st, b, "out") {
					r := res()
					st.facts.Assume(norm(Leq(Int(1), r[0])), true)
				} else {
					res()
				}
			case "String", "Bytes":
				ev.handled = true
				ph := strings.Fields(phase(st, b))[0]
				ev.results = []*Term{Call("content", b, Str(ph))}
				if t, pre := text(st, b); pre {
					ev.results = []*Term{Str(t)}
				}
			case "WriteTo":
				r := res()
				write(e, st, in, ev.args[1], Call("content", b, Str(strings.Fields(phase(st, b))[0])), last(r))
			case "Reset":
				if content {
					c.must(e, st, in, is(st, b, "out"), "reset", "the rendered output is dropped before it was written")
				}
				res()
			case "Grow", "Cap", "Available":
				res()
			default:
				if content {
					c.must(e, st, in, false, "buffer-use", "%s changes the rendered output", ev.name)
				}
				res()
			}
		case ev.name == "os.Stat" || ev.name == "os.Lstat":
			r := res()
			st.Set("keep:stat:"+ref(ev.args[0]), ref(r[1]))
		case ev.name == "os.MkdirAll" || ev.name == "os.Mkdir":
			r := res()
			if effects {
				c.must(e, st, in, st.IsNot(stdout), "mkdir-with-stdout", "a directory is created although output is not known not to go to standard output")
				c.must(e, st, in, okDir(st, ev.args[0]), "other-dir", "the directory %v, which is not the one of the output file, is created", ev.args[0])
			}
			if place {
				m, ok := ev.args[1].isInt()
				c.must(e, st, in, ok && m&0700 == 0700, "dir-mode", "directories are created with the mode %v", ev.args[1])
				if ev.name == "os.MkdirAll" {
					st.Set("keep:mk:"+ref(ev.args[0]), ref(r[0]))
				}
			}
		case ev.name == "os.OpenFile" || ev.name == "os.Create" || ev.name == "os.WriteFile":
			name := ev.args[0]
			if ev.name == "os.OpenFile" {
				fl, ok := ev.args[1].isInt()
				if ok && fl&3 == 0 && fl&(64|512) == 0 {
					return // read only
				}
				if place {
					c.must(e, st, in, ok && fl&64 != 0 && fl&512 != 0 && fl&128 == 0 && fl&1024 == 0 && fl&3 != 0 && fl&3 != 3, "flags", "output files are opened with the flags %v, which do not create or completely replace them", ev.args[1])
					m, ok := ev.args[2].isInt()
					c.must(e, st, in, ok && m&0600 == 0600, "mode", "output files are created with the mode %v", ev.args[2])
				}
			}
			opened(e, st, in, name)
			r := res()
			if st.Get("keep:name:"+ref(name)) != "" && content {
				c.must(e, st, in, false, "opened-twice", "the output file is opened twice")
			}
			st.Set("keep:name:"+ref(name), "new "+ref(last(r)))
			if ev.name == "os.WriteFile" {
				d := T.mk(Term{op: OCall, s: "file", args: []*Term{name}})
				st.Set("keep:file:"+ref(d), ref(last(r)))
				write(e, st, in, d, ev.args[1], last(r))
			} else {
				st.Set("keep:file:"+ref(r[0]), ref(last(r)))
				st.Set("keep:fname:"+ref(r[0]), ref(name)+" ")
				fail(st, last(r))
			}
		case ev.name == "(*os.File).WriteString" || ev.name == "(*os.File).Write":
			r := res()
			write(e, st, in, ev.args[0], ev.args[1], last(r))
		case ev.name == "(*os.File).Close":
			res()
		case ev.name == "(*os.File).Name":
			if nm := unref(st.Get("keep:fname:" + ref(ev.args[0]))); nm != nil {
				ev.handled = true
				ev.results = []*Term{nm}
			}
		case ev.name == "io.WriteString":
			r := res()
			write(e, st, in, ev.args[0], ev.args[1], last(r))
		case ev.name == "io.Copy":
			r := res()
			src := buffer(e, st, ev.args[1])
			if src == nil {
				write(e, st, in, ev.args[0], ev.args[1], last(r))
			} else {
				write(e, st, in, ev.args[0], Call("content", src, Str(strings.Fields(phase(st, src))[0])), last(r))
			}
		case strings.HasPrefix(ev.name, "fmt.Fprint") || strings.HasPrefix(ev.name, "fmt.Print"):
			args := ev.args
			dest := LD(T.mk(Term{op: OGlobal, s: "os.Stdout"}), 0)
			if strings.HasPrefix(ev.name, "fmt.F") {
				dest, args = args[0], args[1:]
			}
			fstr := ""
			if strings.HasSuffix(ev.name, "f") {
				fstr, _ = args[0].isStr()
				args = args[1:]
			}
			var items []*Term
			if l := e.list(st, args[0]); l.op == OElems {
				for _, x := range l.args {
					items = append(items, unwrap(x))
				}
			}
			pay := Call("printed", args...)
			switch {
			case strings.HasSuffix(ev.name, "ln") && len(items) == 1:
				if s, ok := items[0].isStr(); ok {
					pay = Str(s + "\n")
				} else if payload(items[0]) == nil {
					pay = Concat(items[0], Str("\n"))
				}
			case strings.HasSuffix(ev.name, "f") && len(items) == 1 && (fstr == "%s\n" || fstr == "%v\n") && payload(items[0]) == nil:
				pay = Concat(items[0], Str("\n"))
			case strings.HasSuffix(ev.name, "f") && len(items) == 1 && (fstr == "%s" || fstr == "%v"):
				pay = items[0]
			case strings.HasSuffix(ev.name, "f") && len(items) == 0 && !strings.Contains(fstr, "%"):
				pay = Str(fstr)
			case !strings.HasSuffix(ev.name, "f") && !strings.HasSuffix(ev.name, "ln") && len(items) == 1:
				pay = items[0]
			case !strings.HasSuffix(ev.name, "f") && !strings.HasSuffix(ev.name, "ln") && len(items) == 2:
				pay = Concat(items[0], items[1])
			}
			r := res()
			write(e, st, in, dest, pay, last(r))
		case !ev.repo && fsWrites(ev.name):
			if effects {
				c.must(e, st, in, false, "effect|"+ev.name, "%s changes the file system", ev.name)
			}
			if content || place {
				c.must(e, st, in, !strings.HasPrefix(ev.name, "(*os.File)"), "file|"+ev.name, "%s changes an output file", ev.name)
			}
		}
	}
	r.OnPhi = kept.onPhi
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		kept.onLoop(e, st, ev)
		st.forAll(ev, "enc", append(kept.lists(st), nodes), func(l, idx, el *Term) bool {
			if x := unref(st.Get("encd:" + ref(idx))); x != nil {
				return st.Is(Eq(x, Nil()))
			}
			cl := e.Load(st, FA(el, "Content"), nil)
			return st.emptyList(cl)
		})
		if ev.kind != "exit" {
			st.clearIter(ev.iter)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		if len(res) == 0 || !isErrorType(root.Signature.Results().At(root.Signature.Results().Len()-1).Type()) {
			if content {
				c.must(e, st, in, false, "no-error", "the output function returns no error")
			}
			return
		}
		st.with(func(s *State) {
			out, pre := false, true
			for _, b := range bufs(s) {
				t, p := text(s, b)
				out = out || is(s, b, "out")
				pre = pre && p && t == ""
			}
			names := s.listed("keep:name:")
			switch {
			case out:
				n["written"]++
				if content {
					c.must(e, s, in, noErr(s), "lost-error", "success is returned although an error of writing or opening the file is not known to be nil")
				}
			default:
				n["empty"]++
				if content {
					c.must(e, s, in, pre && allEnc(s) || s.emptyList(nodes), "not-output", "success is returned without output although the file is not known to have only empty documents")
					c.must(e, s, in, len(names) == 0, "opened", "an output file is opened although the file has no output")
				}
			}
			if std {
				for _, nm := range names {
					c.must(e, s, in, strings.HasPrefix(s.Get("keep:name:"+ref(nm)), "done "), "no-name", "the name of an output file is not written to standard output")
				}
			}
		}, Eq(res[len(res)-1], Nil()))
	}
	c.explore(root, r, nil, nil)
}

// ruleEffects: no other part of the program changes the file system (C11).
func ruleEffects(c *Check) {
	c.rule("Over the whole program: library functions that change the file system or start processes are only called by the output function and what only it calls; every other OpenFile is read only.")
	P := c.P
	roots := P.outputRoots()
	var all []*ssa.Function
	for _, f := range P.fns {
		all = append(all, f)
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	entries := P.entries()
	n := 0
	for _, f := range all {
		for _, s := range P.graph().out[f] {
			if s.ext == "" || !fsWrites(s.ext) {
				continue
			}
			n++
			if s.ext == "os.OpenFile" && !s.taken {
				if c, ok := s.instr.(ssa.CallInstruction); ok {
					if fl, ok := c.Common().Args[1].(*ssa.Const); ok && fl.Int64()&(3|64|512) == 0 {
						continue
					}
				}
			}
			key := "effect|" + fnLabel(f) + "|" + s.ext
			if path := P.avoiding(entries, isRoot, f); path != "" {
				c.Must(false, key, P.ipos(s.instr), "%s, which changes the file system, is called by %s outside of the output of files (%s)", s.ext, fnLabel(f), path)
			} else {
				c.Must(!s.taken, key, P.ipos(s.instr), "%s is used as a value", s.ext)
			}
		}
	}
	c.least("calls that change the file system", n, 2)
}

// entries: functions that are called from outside.
func (P *Program) entries() []*ssa.Function {
	var out []*ssa.Function
	g := P.graph()
	for _, f := range P.fns {
		if f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "package init") {
			continue
		}
		if len(g.in[f]) == 0 || f.Name() == "main" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			out = append(out, f)
		}
	}
	return out
}

// avoiding gives a call chain from the entries to f that does not go through the given functions.
func (P *Program) avoiding(entries []*ssa.Function, through map[*ssa.Function]bool, f *ssa.Function) string {
	g := P.graph()
	prev := map[*ssa.Function]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, x := range entries {
		if !through[x] && !seen[x] {
			seen[x] = true
			work = append(work, x)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == f {
			s := fnLabel(x)
			for p := prev[x]; p != nil; p = prev[p] {
				s = fnLabel(p) + " > " + s
			}
			return s
		}
		for _, e := range g.out[x] {
			if y := e.callee; y != nil && !seen[y] && !through[y] {
				seen[y] = true
				prev[y] = x
				work = append(work, y)
			}
		}
	}
	return ""
}

// ruleStdout: standard output is used by the output function and by commands of their own only (C14).
func ruleStdout(c *Check) {
	c.rule("Over the whole program: os.Stdout and the printing functions of fmt are only used by the output function (covered path by path), or by functions that can only be reached through the Run function of a command that does not run overlays; every logging backend is made for os.Stderr.")
	P := c.P
	exec := c.fn("instructions", "Execute")
	if exec == nil {
		return
	}
	other, rootRun := map[*ssa.Function]bool{}, 0
	through := map[*ssa.Function]bool{}
	for _, f := range P.outputRoots() {
		through[f] = true
	}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != "cobra.Command" {
					continue
				}
				switch fieldName(deref(fa.X.Type()), fa.Field) {
				case "Run", "RunE", "ValidArgsFunction":
				default:
					continue
				}
				fns, _, _ := funcValues(P, s.Val, map[ssa.Value]bool{})
				for _, g := range fns {
					if P.reaches(g, exec) {
						rootRun++
					} else {
						other[g] = true
						through[g] = true
					}
				}
			}
		}
	}
	c.least("Run functions of the command that runs overlays", rootRun, 1)
	entries := P.entries()
	uses, backends := 0, 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch n, _ := callName(in); {
				case strings.HasPrefix(n, "fmt.Print"), n == "os.NewFile", n == "syscall.Write",
					strings.HasSuffix(n, ".OutOrStdout") && strings.HasPrefix(n, "(*cobra.Command)"), n == "(*logging.LogBackend).Log":
					what = n
				case n == "logging.NewLogBackend":
					backends++
					a := in.(ssa.CallInstruction).Common().Args[0]
					c.Must(loadsGlobal(a, "Stderr"), "backend|"+fnLabel(f), P.ipos(in), "log messages are written to something else than standard error")
				case n == "log.SetOutput" || n == "(*log.Logger).SetOutput" || n == "log.New":
					for _, a := range in.(ssa.CallInstruction).Common().Args {
						if typeName(a.Type()) == "io.Writer" {
							c.Must(loadsGlobal(a, "Stderr"), "backend|"+fnLabel(f), P.ipos(in), "log messages are written to something else than standard error")
						}
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
						what = "os.Stdout"
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr") {
						c.Must(false, "redirect|"+fnLabel(f), P.ipos(in), "os.%s is replaced", g.Name())
					}
				}
				if what == "" {
					continue
				}
				uses++
				if through[f] {
					c.Must(true, "stdout|"+fnLabel(f), P.ipos(in), "")
					continue
				}
				path := P.avoiding(entries, through, f)
				c.Must(path == "", "stdout|"+fnLabel(f), P.ipos(in), "%s uses %s (%s)", fnLabel(f), what, path)
			}
		}
	}
	c.least("uses of standard output", uses, 3)
	c.least("logging backends", backends, 1)
}

func loadsGlobal(v ssa.Value, name string) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && g.Pkg.Pkg.Path() == "os" && g.Name() == name
		default:
			return false
		}
	}
}

func isSlice(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return s.Elem(), true
}
