package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- error discipline (C09)

func lastError(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func errorParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if isErrorType(p.Type()) {
			return p
		}
	}
	return nil
}

// takesErrorPtr: the function reports its failure through a variable of its caller.
func takesErrorPtr(f *ssa.Function) bool {
	for _, p := range f.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isErrorType(pt.Elem()) {
			return true
		}
	}
	return false
}

// unused: nothing in the program refers to the function, and it is no method that libraries look for.
func (P *Program) unused(f *ssa.Function) bool {
	if len(P.graph().in[f]) > 0 || f.Name() == "main" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Parent() != nil {
		return false
	}
	if f.Signature.Recv() != nil {
		switch f.Name() {
		case "UnmarshalYAML", "MarshalYAML", "UnmarshalText", "MarshalText", "UnmarshalJSON", "MarshalJSON", "String", "Error", "Set", "Type", "Write", "Read", "Close", "Format", "GoString":
			return false
		}
	}
	return true
}

// makesError: functions whose error result is the error they were asked to make.
func makesError(n string) bool {
	switch n {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap", "multierror.Append", "(*cobra.Command).Context":
		return true
	}
	return false
}

// harmless: calls whose error cannot occur or has no effect on the result of a run, with the reason.
func harmless(n string) string {
	switch {
	case strings.HasPrefix(n, "(*bytes.Buffer).Write") && n != "(*bytes.Buffer).WriteTo", strings.HasPrefix(n, "(*strings.Builder).Write"):
		return "writing to memory does not fail"
	case n == "(*yaml.Encoder).Close":
		return "flushes to memory (C13)"
	case n == "(*yamlpath.Path).Find":
		return "the library documents that it returns no error"
	case strings.HasPrefix(n, "(*cobra.Command).MarkFlag"), strings.HasPrefix(n, "(*cobra.Command).MarkPersistentFlag"):
		return "only changes shell completion"
	case n == "(*cobra.Command).Help", n == "(*cobra.Command).Usage":
		return "informational"
	}
	return ""
}

// fallible: the function calls something whose error matters.
func (P *Program) fallible(f *ssa.Function) bool {
	for g := range P.reach(f) {
		for _, s := range P.graph().out[g] {
			if s.taken || s.callee != nil {
				continue
			}
			c, ok := s.instr.(ssa.CallInstruction)
			if ok && lastError(c.Common().Signature()) >= 0 && !makesError(s.ext) && harmless(s.ext) == "" {
				return true
			}
		}
	}
	return false
}

// mayWrite tells whether v may be a file that was opened for writing.
func (P *Program) mayWrite(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return P.callMayWrite(c, x.Index, seen)
		}
		if a, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return P.mayWrite(a.X, seen)
		}
		return true
	case *ssa.Call:
		return P.callMayWrite(x, 0, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if P.mayWrite(e, seen) {
				return true
			}
		}
		return false
	case *ssa.TypeAssert:
		return P.mayWrite(x.X, seen)
	case *ssa.ChangeInterface:
		return P.mayWrite(x.X, seen)
	case *ssa.ChangeType:
		return P.mayWrite(x.X, seen)
	case *ssa.MakeInterface:
		return P.mayWrite(x.X, seen)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return a.Name() != "Stdin"
		case *ssa.Alloc, *ssa.FreeVar:
			return P.cellMayWrite(a, seen)
		}
		return true
	case *ssa.Parameter:
		idx := -1
		for i, p := range x.Parent().Params {
			if p == x {
				idx = i
			}
		}
		in := P.graph().in[x.Parent()]
		if len(in) == 0 {
			return true
		}
		for _, s := range in {
			c, ok := s.instr.(ssa.CallInstruction)
			if s.taken || !ok || c.Common().StaticCallee() != x.Parent() || idx >= len(c.Common().Args) {
				return true
			}
			if P.mayWrite(c.Common().Args[idx], seen) {
				return true
			}
		}
		return false
	}
	return true
}

func (P *Program) cellMayWrite(a ssa.Value, seen map[ssa.Value]bool) bool {
	switch x := a.(type) {
	case *ssa.FreeVar:
		for i, fv := range x.Parent().FreeVars {
			if fv != x {
				continue
			}
			for _, r := range refs(x.Parent()) {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					if P.cellMayWrite(mc.Bindings[i], seen) {
						return true
					}
				} else {
					return true
				}
			}
		}
		return false
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch s := r.(type) {
			case *ssa.Store:
				if s.Addr == x && P.mayWrite(s.Val, seen) {
					return true
				}
				if s.Val == x {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				// assigned in the closure?
				for i, b := range s.Bindings {
					if b == x {
						for _, q := range *s.Fn.(*ssa.Function).FreeVars[i].Referrers() {
							if st, ok := q.(*ssa.Store); ok && P.mayWrite(st.Val, seen) {
								return true
							}
						}
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return true
}

// refs: the instructions that use a function as an operand.
func refs(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	p := f.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if *o == ssa.Value(f) {
					out = append(out, in)
				}
			}
		}
	}
	return out
}

func (P *Program) callMayWrite(c *ssa.Call, idx int, seen map[ssa.Value]bool) bool {
	n, f := callName(c)
	if f != nil && P.inRepo(f) && f.Blocks != nil {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && P.mayWrite(r.Results[idx], seen) {
				return true
			}
		}
		return false
	}
	switch n {
	case "os.Open":
		return false
	case "os.OpenFile":
		if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
			if fl, ok := constant.Int64Val(k.Value); ok {
				return fl&3 != 0 || fl&(64|512) != 0
			}
		}
		return true
	}
	t := c.Call.Signature().Results().At(idx).Type()
	return typeName(deref(t)) == "os.File" || types.IsInterface(t)
}

// usedAs lists the calls that get a function as a value, and the fields it is stored in.
func usedAs(P *Program, f *ssa.Function) (calls []ssa.CallInstruction, fields []string) {
	var follow func(v ssa.Value, seen map[ssa.Value]bool)
	follow = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			followUse(r, v, seen, &calls, &fields, follow)
		}
	}
	for _, g := range P.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(f) {
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						follow(mc, map[ssa.Value]bool{})
					} else {
						followUse(in, f, map[ssa.Value]bool{}, &calls, &fields, follow)
					}
				}
			}
		}
	}
	return
}

func followUse(r ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool, calls *[]ssa.CallInstruction, fields *[]string, follow func(ssa.Value, map[ssa.Value]bool)) {
	switch x := r.(type) {
	case ssa.CallInstruction:
		for _, a := range x.Common().Args {
			if a == v {
				*calls = append(*calls, x)
			}
		}
	case *ssa.Store:
		if x.Val != v {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			*fields = append(*fields, typeName(deref(a.X.Type()))+"."+fieldName(deref(a.X.Type()), a.Field))
		case *ssa.Alloc:
			for _, q := range *a.Referrers() {
				if u, ok := q.(*ssa.UnOp); ok {
					follow(u, seen)
				}
			}
		}
	case *ssa.ChangeType:
		follow(x, seen)
	case *ssa.MakeInterface:
		follow(x, seen)
	case *ssa.Phi:
		follow(x, seen)
	}
}

// ruleErrors: every error of every call is returned, ends the process with a failing status, or is known to be nil.
func ruleErrors(c *Check) {
	P := c.P
	c.rule("Every function of the program is explored on its own, with the functions it calls left open. Each error a call may return is followed: where a function returns, or the next iteration of a loop starts, the error must be known to be nil, or the function must be known to return an error where it is not nil, or the process ended with a failing status. Errors that end a normal case (end of the documents, configuration file not found, a query that is no plain path) count as handled where they are known to be that error.")
	c.rule("Functions that return an error are not started with go, and are only handed to library functions and fields that return their error; the command runs the overlays through RunE, and the process exits with a failing status where Execute of the command failed.")
	n := 0
	var fns []*ssa.Function
	for _, f := range P.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		calls, fields := usedAs(P, f)
		if f.Parent() != nil && len(calls) == 0 && len(fields) == 0 {
			continue // run where it is made
		}
		if len(P.graph().in[f]) > 0 && takesErrorPtr(f) || P.unused(f) {
			continue // run where it is called
		}
		if lastError(f.Signature) >= 0 {
			for _, u := range calls {
				nm, g := callName(u)
				if g != nil && P.inRepo(g) {
					continue
				}
				switch nm {
				case "(*errgroup.Group).Go", "(*errgroup.Group).TryGo", "filepath.Walk", "filepath.WalkDir", "fs.WalkDir", "fmt.Errorf":
				default:
					c.Must(false, "handed|"+fnLabel(f)+"|"+nm, P.ipos(u), "%s, which may fail, is handed to %s, which is not known to pass its error on", fnLabel(f), nm)
				}
			}
			for _, fl := range fields {
				ok := !strings.HasPrefix(fl, "cobra.Command.") || strings.HasSuffix(fl, "E") || strings.HasSuffix(fl, ".Args")
				c.Must(ok, "field|"+fnLabel(f)+"|"+fl, P.pos(f.Pos()), "%s, which may fail, is used as %s", fnLabel(f), fl)
			}
		}
		if mayFail(f) || errorParam(f) != nil && len(calls) > 0 {
			n += c.errorsOf(f, calls)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						c.Must(false, "recover|"+fnLabel(f), P.ipos(in), "a failure that ends the process is caught")
					}
				}
			}
		}
	}
	c.least("calls that may fail", n, 60)
	c.commandErrors()
}

// mayFail: the function itself, or a function it defines, makes a call that may fail.
func mayFail(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n, _ := callName(in)
			if lastError(ci.Common().Signature()) >= 0 && !makesError(n) && harmless(n) == "" || n == "os.Exit" {
				return true
			}
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if mayFail(g) {
			return true
		}
	}
	return false
}

func (c *Check) errorsOf(f *ssa.Function, used []ssa.CallInstruction) int {
	P := c.P
	seen := map[ssa.Instruction]bool{}
	origin := map[*Term]string{}
	r := &Rule{Name: "errors"}
	small := map[*ssa.Function]bool{}
	r.Stop = func(g *ssa.Function) bool {
		if g.Parent() != nil || takesErrorPtr(g) {
			return false
		}
		if v, ok := small[g]; ok {
			return !v
		}
		ok := g != f && !P.recursive(g) && len(P.loops(g).loops) == 0 && len(g.Blocks) <= 10 && (errorParam(g) != nil || lastError(g.Signature) >= 0 || g.Signature.Results().Len() == 1 && isBoolType(g.Signature.Results().At(0).Type())) && !P.fallible(g)
		small[g] = ok
		return !ok
	}
	pend := func(st *State, e *Term, name string) {
		origin[e] = name
		st.Set("keep:pend:"+ref(e), ref(e)+" ")
	}
	handled := func(st *State, e *Term) bool {
		if st.Is(Eq(e, Nil())) {
			return true
		}
		name := origin[e]
		fact := func(sub string) bool {
			for t := range st.facts.b {
				if t.op == OCall && len(t.args) == 2 && unwrap(t.args[0]) == e && strings.Contains(t.String(), sub) && st.Is(t) {
					return true
				}
				if t.op == OEq && (unwrap(t.args[0]) == e || unwrap(t.args[1]) == e) && strings.Contains(t.String(), sub) && st.Is(t) {
					return true
				}
			}
			return false
		}
		switch {
		case strings.HasSuffix(name, "|eof"):
			return fact("io.EOF")
		case strings.HasSuffix(name, "|probe"):
			for t := range st.facts.b {
				if t.op == OCall && len(t.args) >= 1 && unwrap(t.args[0]) == e && (strings.Contains(t.s, "IsNotExist") || strings.Contains(t.String(), "ErrNotExist")) {
					return true
				}
			}
			return st.Truth(Eq(e, Nil())) == N
		case strings.HasSuffix(name, "|path"):
			return fact("ErrInvalidPathSyntax")
		case strings.HasSuffix(name, "|config"):
			if fact("ConfigFileNotFoundError") {
				return true
			}
			for t := range st.facts.b {
				if t.any(func(x *Term) bool { return x == e }) && strings.Contains(t.String(), "ConfigFileNotFound") && st.Is(t) {
					return true
				}
			}
		}
		return false
	}
	n := 0
	r.OnCall = func(e *Engine, st *State, ev *CallEv) {
		in := ev.instr
		for _, t := range st.listed("keep:pend:") {
			if st.Is(Eq(t, Nil())) {
				st.Set("keep:pend:"+ref(t), "")
			}
		}
		if ev.name == "os.Exit" {
			for _, t := range st.listed("keep:pend:") {
				if !handled(st, t) {
					code, ok := ev.args[0].isInt()
					c.must(e, st, in, ok && code != 0, "exit-status|"+nameOf(origin[t]), "the process ends with the status %v although %s may have failed", ev.args[0], nameOf(origin[t]))
				}
			}
			return
		}
		if strings.HasPrefix(ev.name, "(*logging.Logger).") || makesError(ev.name) {
			return
		}
		if ev.name == "errors.As" && ev.args[1].op == OIface {
			ev.handled = true
			ev.results = []*Term{Call("errors.As:"+types.TypeString(ev.args[1].typ, nil), unwrap(ev.args[0]))}
			return
		}
		i := lastError(ev.common.Signature())
		if i < 0 || harmless(ev.name) != "" {
			return
		}
		if ev.repo && c.P.reachesCall(ev.callee, "sed.New") && !c.P.reachesCall(ev.callee, "os.Open") && hasOnlyStrings(ev.callee) {
			return // documented: an invalid format expression is skipped with a warning
		}
		if !ev.repo && informational(ev) {
			return
		}
		name := ev.name
		if name == "" {
			name = "a function value"
		}
		switch {
		case strings.HasSuffix(ev.name, ".Close") && !ev.repo:
			var v ssa.Value
			if ev.common.IsInvoke() {
				v = ev.common.Value
			} else if len(ev.common.Args) > 0 {
				v = ev.common.Args[0]
			}
			if v != nil && !P.mayWrite(v, map[ssa.Value]bool{}) {
				return // only read from
			}
		case ev.name == "(*yaml.Decoder).Decode":
			if l := innermost(P, in); l != nil {
				d := ev.common.Args[0]
				if di, ok := d.(ssa.Instruction); !ok || di.Block() == nil || !l.blocks[di.Block()] {
					name += "|eof"
				}
			}
			for _, p := range in.Parent().Params {
				if p == ev.common.Args[0] {
					name += "|eof"
				}
			}
		case ev.repo && hasParam(ev.callee, "yaml.Decoder"):
			name += "|eof"
		case ev.name == "os.Stat" || ev.name == "os.Lstat":
			if P.calls(in.Parent(), "os.MkdirAll") {
				name += "|probe" // making the directory or opening the file fails as well
			}
		case ev.repo && strings.HasPrefix(ev.name, "builder.") && pkgShort(ev.callee) == "builder":
			name += "|path"
		case ev.name == "viper.ReadInConfig" || ev.name == "(*viper.Viper).ReadInConfig":
			name += "|config"
		}
		if !seen[in] {
			seen[in] = true
			n++
		}
		res := e.freshResults(st, in, ev.name, ev.common.Signature().Results().Len())
		ev.handled, ev.results = true, res
		pend(st, res[i], name)
		if !ev.repo || ev.stop {
			for _, a := range ev.args {
				if u := unwrap(a); isPtrLike(u) {
					e.Havoc(st, u, in, "call")
				}
			}
		} else {
			for _, a := range ev.args {
				if u := unwrap(a); isPtrLike(u) {
					e.Havoc(st, u, in, "call")
				}
			}
		}
	}
	r.OnGo = func(e *Engine, st *State, callee *ssa.Function, fv *Term, args []*Term, in ssa.Instruction) {
		g, ok := in.(*ssa.Go)
		if ok {
			c.must(e, st, in, lastError(g.Call.Signature()) < 0, "go", "the error of a function started with go is lost")
		}
	}
	judge := func(e *Engine, st *State, in ssa.Instruction, t *Term, results []*Term) {
		if handled(st, t) {
			st.Set("keep:pend:"+ref(t), "")
			return
		}
		ok := false
		for _, R := range results {
			if R == t {
				ok = true
				continue
			}
			good := true
			st.with(func(s *State) { good = good && s.IsNot(Eq(R, Nil())) }, Not(Eq(t, Nil())))
			ok = ok || good
		}
		nm := nameOf(origin[t])
		c.must(e, st, in, ok, "lost|"+nm, "%s may have failed here, but its error is neither known to be nil nor returned", nm)
		st.Set("keep:pend:"+ref(t), "")
	}
	r.OnLoop = func(e *Engine, st *State, ev LoopEv) {
		if ev.kind != "back" {
			return
		}
		for _, t := range st.listed("keep:pend:") {
			if t.op == OSite && t.site != nil && t.site.Parent() == ev.l.header.Parent() && !ev.l.blocks[t.site.Block()] {
				continue
			}
			if len(st.frames) > 1 && t.op == OSite && t.site.Parent() != st.top().fn {
				continue
			}
			judge(e, st, ev.l.header.Instrs[len(ev.l.header.Instrs)-1], t, nil)
		}
	}
	r.OnReturn = func(e *Engine, st *State, res []*Term, in ssa.Instruction) {
		var errs []*Term
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isErrorType(f.Signature.Results().At(i).Type()) {
				errs = append(errs, res[i])
			}
		}
		for _, t := range st.listed("keep:pend:") {
			judge(e, st, in, t, errs)
		}
	}
	c.explore(f, r, nil, func(st *State) {
		if p := errorParam(f); p != nil && len(used) > 0 {
			pend(st, Param(p.Name(), p.Type()), "the step before")
		}
	})
	return n
}

func nameOf(s string) string {
	if i := strings.Index(s, "|"); i >= 0 {
		return s[:i]
	}
	return s
}

func hasOnlyStrings(f *ssa.Function) bool {
	for _, p := range f.Params {
		if !isString(p.Type()) {
			return false
		}
	}
	return true
}

// informational: text other than results written to standard output or standard error.
func informational(ev *CallEv) bool {
	dest := ev.args
	switch {
	case strings.HasPrefix(ev.name, "fmt.Print"):
	case strings.HasPrefix(ev.name, "fmt.Fprint"), ev.name == "(*os.File).WriteString", ev.name == "io.WriteString":
		d := unwrap(dest[0])
		if !isStdGlobal(d, "os.Stdout") && !isStdGlobal(d, "os.Stderr") && !(d.op == OAlloc) {
			return false
		}
	default:
		return false
	}
	for _, a := range ev.args {
		if strings.Contains(a.String(), "(*bytes.Buffer)") || strings.Contains(a.String(), "(*strings.Builder)") {
			return false
		}
	}
	return true
}

func innermost(P *Program, in ssa.Instruction) *Loop {
	var best *Loop
	for _, l := range P.loops(in.Parent()).loops {
		if l.blocks[in.Block()] && (best == nil || len(l.blocks) < len(best.blocks)) {
			best = l
		}
	}
	return best
}

// calls: the function itself calls name.
func (P *Program) calls(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if n, _ := callName(in); n == name {
				return true
			}
		}
	}
	return false
}

// commandErrors: the command runs the overlays through RunE, and its failure gives a failing status.
func (c *Check) commandErrors() {
	P := c.P
	exec := c.fn("instructions", "Execute")
	if exec == nil {
		return
	}
	runE, executes := 0, 0
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || typeName(deref(fa.X.Type())) != "cobra.Command" {
						continue
					}
					fns, _, _ := funcValues(P, s.Val, map[ssa.Value]bool{})
					for _, g := range fns {
						if !P.reaches(g, exec) {
							continue
						}
						fld := fieldName(deref(fa.X.Type()), fa.Field)
						c.Must(strings.HasSuffix(fld, "E"), "run|"+fld, P.ipos(in), "the overlays are run as %s of the command, which returns no error", fld)
						if fld == "RunE" {
							runE++
						}
					}
				}
				if n, _ := callName(in); strings.HasPrefix(n, "(*cobra.Command).Execute") {
					executes++
					ok := false
					for g := range P.reach(P.mainFns()...) {
						ok = ok || g == f
					}
					c.Must(ok, "main", P.ipos(in), "the command is not known to be run by the program")
				}
			}
		}
	}
	c.least("commands that run the overlays", runE, 1)
	c.least("places that run the command", executes, 1)
}

func (P *Program) mainFns() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.fns {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			out = append(out, f)
		}
	}
	return out
}
