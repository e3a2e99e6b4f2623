package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a forward dataflow analysis over the SSA form of the
// repository with its own functions expanded at their call sites. An abstract
// state holds value numbers for the live SSA values, the memory cells written
// so far, the branch outcomes seen and the state of the monitor (the property
// automaton). States are propagated along control flow edges until no new state
// appears at any block (loop carried values and cells are widened to an unknown
// value at loop heads, so the set of states is finite). Branches whose outcome
// is implied by the known outcomes are pruned, which is the path sensitivity
// of property simulation (Das, Lerner, Seigle 2002).

// hv: the cells reached from base (along pat, when given) were changed in an unknown way.
type hv struct {
	base *Term
	ver  int64
	pat  string
}

func (h hv) affects(addr *Term) bool {
	if !leads(h.base, addr) {
		return false
	}
	return h.pat == "" || strings.HasPrefix(path(h.base, addr), h.pat)
}

// path lists the steps from base to addr; indices and keys are left open.
func path(base, addr *Term) string {
	var steps []string
	for addr != base {
		switch addr.op {
		case OFA:
			steps = append(steps, "."+addr.s)
		case OEA:
			steps = append(steps, "[]")
		case OME:
			steps = append(steps, "{}")
		case OLD:
			steps = append(steps, "*")
		case OSlice:
			addr = addr.args[0]
			continue
		default:
			return ""
		}
		addr = addr.args[0]
	}
	for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
		steps[i], steps[j] = steps[j], steps[i]
	}
	return strings.Join(steps, "/") + "/"
}

type deferred struct {
	instr  *ssa.Defer
	fn     *Term
	callee *ssa.Function
	args   []*Term
}

type loopState struct {
	mem    map[*Term]*Term
	unroll bool
	ind    map[*ssa.Phi]*Term // value of the induction variables as a function of the iteration number
}

type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	block  *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	call   ssa.Instruction // call in the caller, nil for root
	isDef  bool            // running as a deferred call
	defers []deferred
	loops  map[*Loop]*loopState
}

type trail struct {
	prev *trail
	pos  string
	what string
	n    int
}

type State struct {
	frames []*Frame
	mem    map[*Term]*Term
	hvs    []hv
	facts  *Facts
	kv     map[string]string
	tr     *trail
	dead   bool
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{facts: s.facts.clone(), tr: s.tr}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.hvs = append([]hv(nil), s.hvs...)
	n.kv = make(map[string]string, len(s.kv))
	for k, v := range s.kv {
		n.kv[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = make(map[*Loop]*loopState, len(f.loops))
		for k, v := range f.loops {
			g.loops[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

// Truth of a boolean term on this path.
func (s *State) Truth(t *Term) tri { return s.facts.Truth(norm(t)) }
func (s *State) Is(t *Term) bool   { return s.Truth(t) == Y }
func (s *State) IsNot(t *Term) bool {
	return s.Truth(t) == N
}
func (s *State) Set(k, v string) {
	if v == "" {
		delete(s.kv, k)
	} else {
		s.kv[k] = v
	}
}
func (s *State) Get(k string) string { return s.kv[k] }

func (s *State) step(pos, what string) {
	n := 1
	if s.tr != nil {
		n = s.tr.n + 1
	}
	s.tr = &trail{s.tr, pos, what, n}
}

// Call describes a call that is not expanded.
type CallEv struct {
	st      *State
	instr   ssa.Instruction
	common  *ssa.CallCommon
	callee  *ssa.Function // nil for unresolved calls
	name    string
	args    []*Term // receiver first
	recur   bool
	repo    bool
	results []*Term // to be set by the handler
	handled bool
	noHavoc bool
	stop    bool  // the call does not return
	run     *Term // function value the call runs at once (a worker)
	runArgs []*Term
}

type LoopEv struct {
	kind string // enter, back, exit
	l    *Loop
	ctx  *Ctx
	iter *Term
}

type Rule struct {
	Name        string
	Stop        func(fn *ssa.Function) bool
	Pure        bool // give the results of side effect free functions a name instead of following them
	OnCall      func(e *Engine, st *State, c *CallEv)
	OnBranch    func(e *Engine, st *State, atom *Term, val bool, in ssa.Instruction)
	OnLoop      func(e *Engine, st *State, ev LoopEv)
	OnPhi       func(e *Engine, st *State, phi *ssa.Phi, l *Loop, old, nw *Term)
	OnStore     func(e *Engine, st *State, addr, val *Term, in ssa.Instruction)
	OnReturn    func(e *Engine, st *State, res []*Term, in ssa.Instruction)
	OnExit      func(e *Engine, st *State, kind string, in ssa.Instruction)
	OnOp        func(e *Engine, st *State, op string, args []*Term, in ssa.Instruction) // send, close, recv, go, defer, index, slice, assert, loadnil
	OnGo        func(e *Engine, st *State, callee *ssa.Function, fnTerm *Term, args []*Term, in ssa.Instruction)
	RunGo       func(e *Engine, st *State, callee *ssa.Function, args []*Term, in ssa.Instruction) bool // expand the goroutine where it is started
	OnRet       func(e *Engine, st *State, fn *ssa.Function, call ssa.Instruction, res []*Term)         // an expanded function returns
	OnInline    func(e *Engine, st *State, callee *ssa.Function, args []*Term, in ssa.Instruction)
	OnLoad      func(addr *Term) *Term // scenario: value of a cell nothing was stored to
	IgnoreField map[string]bool
	KeepFact    func(t *Term) bool // nil: keep all
	KeepAll     bool
	Widen       func(l *Loop) bool // do not enumerate the first values carried around the loop
	MaxStates   int
	WrapAdd     bool    // integer sums of two unknown operands are not simplified (they may overflow)
	KeepPhis    bool    // keep the values of counters carried around loops
	Roots       []*Term // objects whose contents are remembered to the end
}

type Finding struct {
	key string // rule + construct, stable under line shifts
	pos string
	msg string
	trl []string
}

type Engine struct {
	P        *Program
	R        *Rule
	visited  map[string]bool
	work     []*State
	findings map[string]Finding
	order    []string
	states   int
	blocks   map[*ssa.BasicBlock]bool
	fns      map[*ssa.Function]bool
	calls    int
	phiVals  map[string]map[*Term]bool
	undec    string
	ends     int
	nextVer  int64
	vers     map[string]int64
	quiet    bool
}

func NewEngine(P *Program, r *Rule) *Engine {
	return &Engine{P: P, R: r, visited: map[string]bool{}, findings: map[string]Finding{}, blocks: map[*ssa.BasicBlock]bool{},
		fns: map[*ssa.Function]bool{}, phiVals: map[string]map[*Term]bool{}, vers: map[string]int64{}}
}

func (e *Engine) Violate(st *State, in ssa.Instruction, key, format string, a ...interface{}) {
	if _, ok := e.findings[key]; ok {
		return
	}
	f := Finding{key: key, msg: fmt.Sprintf(format, a...)}
	if in != nil {
		f.pos = e.P.ipos(in)
	} else if st != nil && len(st.frames) > 0 {
		f.pos = e.P.pos(st.frames[0].fn.Pos())
	}
	if st != nil {
		for t := st.tr; t != nil && len(f.trl) < 40; t = t.prev {
			f.trl = append(f.trl, t.pos+" "+t.what)
		}
		for i, j := 0, len(f.trl)-1; i < j; i, j = i+1, j-1 {
			f.trl[i], f.trl[j] = f.trl[j], f.trl[i]
		}
	}
	e.findings[key] = f
	e.order = append(e.order, key)
}

// Run analyses fn from its entry; args may be nil (parameters become symbolic).
func (e *Engine) Run(fn *ssa.Function, args []*Term, free []*Term, init func(st *State)) {
	st := &State{mem: map[*Term]*Term{}, facts: newFacts(), kv: map[string]string{}}
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, Param(p.Name(), p.Type()))
		}
	}
	e.push(st, fn, T.Ctx(nil, nil, fn), nil, args, free)
	if init != nil {
		init(st)
	}
	e.work = append(e.work, st)
	max := e.R.MaxStates
	if max == 0 {
		max = 150000
	}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.runState(s)
		if e.states > max {
			if e.undec == "" {
				e.undec = fmt.Sprintf("more than %d abstract states from %s", max, fn.Name())
			}
			e.work = nil
			return
		}
	}
}

func (e *Engine) push(st *State, fn *ssa.Function, ctx *Ctx, call ssa.Instruction, args, free []*Term) {
	f := &Frame{fn: fn, ctx: ctx, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, call: call, loops: map[*Loop]*loopState{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		} else {
			f.env[p] = Param(p.Name(), p.Type())
		}
	}
	st.frames = append(st.frames, f)
	e.fns[fn] = true
	e.blocks[f.block] = true
}

func (e *Engine) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return Const(x.Value)
	case *ssa.Global:
		return globalAddr(x)
	case *ssa.Function:
		return T.mk(Term{op: OFn, fn: x})
	case *ssa.Builtin:
		return Call("builtin:" + x.Name())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	// dead in the pruned environment or never defined on this path
	return T.mk(Term{op: OSite, s: "undef", site: asInstr(v), ctx: st.top().ctx})
}

func asInstr(v ssa.Value) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return nil
}

func globalAddr(g *ssa.Global) *Term {
	return T.mk(Term{op: OGlobal, s: g.Pkg.Pkg.Path() + "." + g.Name(), typ: g.Type()})
}

func (e *Engine) site(st *State, in ssa.Instruction, label string, n int64) *Term {
	return T.mk(Term{op: OSite, s: label, site: in, ctx: st.top().ctx, n: n})
}

// ---- memory

func within(k, addr *Term) bool {
	for {
		if k == addr {
			return true
		}
		if k.op == OFA || (k.op == OEA && k.args[0].op == OAlloc) {
			k = k.args[0]
			continue
		}
		return false
	}
}

func (st *State) rootFresh(a *Term) *Term {
	for a.op == OFA || a.op == OEA || a.op == OSlice || a.op == OME {
		a = a.args[0]
	}
	if a.op == OAlloc {
		return a
	}
	return nil
}

// leads tells whether addr is reached from base (an index computed from base does not count).
func leads(base, addr *Term) bool {
	for {
		if addr == base {
			return true
		}
		switch addr.op {
		case OFA, OEA, OME, OLD, OSlice:
			addr = addr.args[0]
			continue
		}
		return addr.has(base)
	}
}

func (st *State) version(addr *Term) int64 {
	for i := len(st.hvs) - 1; i >= 0; i-- {
		if st.hvs[i].affects(addr) {
			return st.hvs[i].ver
		}
	}
	return 0
}

// Load returns the value stored at addr.
func (e *Engine) Load(st *State, addr *Term, ty types.Type) *Term {
	var isStruct bool
	if ty != nil {
		_, isStruct = ty.Underlying().(*types.Struct)
	}
	base, ok := st.mem[addr]
	if !ok && addr.op == OAlloc && ty != nil {
		// an array as a value
		if a, is := ty.Underlying().(*types.Array); is && a.Len() <= 64 {
			var el []*Term
			for i := int64(0); i < a.Len(); i++ {
				el = append(el, e.Load(st, EA(addr, Int(i)), a.Elem()))
			}
			return Elems(el...)
		}
	}
	if !ok {
		// inside a value stored as a whole
		if addr.op == OFA {
			if whole, ok2 := st.wholeOf(addr.args[0]); ok2 {
				base = FieldOf(whole, addr.s, ty)
				ok = true
			}
		}
	}
	if !ok && e.R.OnLoad != nil {
		if v := e.R.OnLoad(addr); v != nil {
			return v
		}
	}
	if !ok && addr.op == OEA {
		b, i := addr.args[0], addr.args[1]
		if n, isc := i.isInt(); isc {
			if v := elemAt(b, n); v != nil {
				return v
			}
		}
		if n, isc := i.isInt(); isc && b.op == ODeep {
			if v := elemAt(b.args[0], n); v != nil {
				return Deep(v)
			}
		}
		// element writes that may alias
		for k := range st.mem {
			if k.op == OEA && k.args[0] == b && k != addr {
				d := Add(k.args[1], i, -1)
				if st.Truth(EqInt(d, Int(0))) != N {
					return LD(addr, e.ver(fmt.Sprintf("alias%d-%d", addr.id, k.id)))
				}
			}
		}
	}
	if !ok && addr.op == OGlobal && addr.typ != nil {
		if v := e.globalValue(addr); v != nil {
			return v
		}
	}
	if !ok {
		ver := st.version(addr)
		if ver == 0 && st.rootFresh(addr) != nil && ty != nil && !(addr.op == OEA && addr.args[0].op == OAlloc && strings.HasPrefix(addr.args[0].s, "slice") && st.kv["__copied"+fmt.Sprint(addr.args[0].id)] != "") {
			base = zeroOf(ty)
		} else if isStruct && addr.op == ODeep {
			base = Deep(e.Load(st, addr.args[0], ty))
		} else {
			base = LD(addr, ver)
		}
	}
	if isStruct {
		fl := map[string]*Term{}
		for k, v := range st.mem {
			if k.op == OFA && k.args[0] == addr {
				fl[k.s] = v
			}
		}
		if len(fl) > 0 {
			return StructOf(base, fl)
		}
	}
	return base
}

// wholeOf finds a struct value stored at addr or at an enclosing address.
func (st *State) wholeOf(addr *Term) (*Term, bool) {
	if v, ok := st.mem[addr]; ok {
		return v, true
	}
	if addr.op == OFA {
		if w, ok := st.wholeOf(addr.args[0]); ok {
			return FieldOf(w, addr.s, nil), true
		}
	}
	return nil, false
}

func elemAt(b *Term, n int64) *Term {
	switch b.op {
	case OElems:
		if n >= 0 && n < int64(len(b.args)) {
			return b.args[n]
		}
	case OCat:
		for _, p := range b.args {
			l, ok := LenOf(p).isInt()
			if !ok {
				return nil
			}
			if n < l {
				return elemAt(p, n)
			}
			n -= l
		}
	}
	return nil
}

func (e *Engine) ver(k string) int64 {
	if v, ok := e.vers[k]; ok {
		return v
	}
	e.nextVer++
	e.vers[k] = e.nextVer
	return e.nextVer
}

func (e *Engine) Store(st *State, addr, v *Term, in ssa.Instruction) {
	if addr.op == OFA && e.R.IgnoreField[addr.s] {
		return
	}
	if v.op == OElems && in != nil {
		// an array as a value
		if s, ok := in.(*ssa.Store); ok {
			if _, is := s.Val.Type().Underlying().(*types.Array); is {
				for i, x := range v.args {
					e.Store(st, EA(addr, Int(int64(i))), x, nil)
				}
				return
			}
		}
	}
	if e.R.OnStore != nil {
		e.R.OnStore(e, st, addr, v, in)
	}
	if addr.op == OEA && addr.args[0].op == OAlloc {
		delete(st.mem, contents(addr.args[0]))
		delete(st.mem, FA(addr.args[0], "[pre]"))
	}
	for k := range st.mem {
		if k != addr && within(k, addr) {
			delete(st.mem, k)
		}
		if k.op == OME && addr.op == OME && k != addr && k.args[0] == addr.args[0] && st.Truth(Eq(k.args[1], addr.args[1])) != N {
			st.mem[k] = Call("either", st.mem[k], v, addr.args[1])
		}
		if k.op == OEA && addr.op == OEA && k != addr && k.args[0] == addr.args[0] {
			if st.Truth(EqInt(Add(k.args[1], addr.args[1], -1), Int(0))) != N {
				delete(st.mem, k)
			}
		}
	}
	st.mem[addr] = v
}

// Havoc forgets everything reachable from base.
func (e *Engine) Havoc(st *State, base *Term, in ssa.Instruction, tag string) {
	base = unwrap(base)
	switch base.op {
	case OConst, OFn, OGlobal:
		return
	case OSlice:
		base = base.args[0]
	case OClosure:
		for _, b := range base.args {
			e.Havoc(st, b, in, tag)
		}
		return
	case OElems, OCat:
		for _, b := range base.args {
			e.Havoc(st, b, in, tag)
		}
		return
	}
	for k, v := range st.mem {
		if k == base || (within(k, base)) {
			// values stored inside the object reach further objects
			if v != base && isRef(v) {
				st.dropUnder(v)
				var nh []hv
				for _, h := range st.hvs {
					if h.base != v {
						nh = append(nh, h)
					}
				}
				st.hvs = append(nh, hv{v, e.ver(fmt.Sprintf("%s%d-%d", tag, T.sid(in), st.top().ctx.id)), ""})
			}
			delete(st.mem, k)
		}
	}
	st.dropUnder(base)
	ver := e.ver(fmt.Sprintf("%s%d-%d", tag, T.sid(in), st.top().ctx.id))
	// drop older identical entries
	var nh []hv
	for _, h := range st.hvs {
		if h.base != base {
			nh = append(nh, h)
		}
	}
	st.hvs = append(nh, hv{base, ver, ""})
	st.facts.forget(func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == OLD && x.n == ver && x.args[0].has(base) })
	})
}

func isRef(t *Term) bool {
	switch t.op {
	case OConst, OEq, OLe, ONot, OAff, OConcat, OFn:
		return false
	}
	return true
}

func (st *State) dropUnder(base *Term) {
	for k := range st.mem {
		if k != base && k.has(base) {
			delete(st.mem, k)
		}
	}
}

// list resolves literal arrays behind slices into element lists.
func (e *Engine) list(st *State, t *Term) *Term {
	x := t
	var lo, hi *Term
	if t.op == OSlice {
		x, lo, hi = t.args[0], t.args[1], t.args[2]
	}
	if x.op == OAlloc && strings.HasPrefix(x.s, "array") {
		n := x.n
		var el []*Term
		et := deref(x.typ).Underlying().(*types.Array).Elem()
		for i := int64(0); i < n; i++ {
			el = append(el, e.Load(st, EA(x, Int(i)), et))
		}
		return SliceT(Elems(el...), lo, hi)
	}
	if x.op == OAlloc && strings.HasPrefix(x.s, "slice") {
		if c, ok := st.mem[contents(x)]; ok {
			return SliceT(c, lo, hi)
		}
		if x.n == 0 && strings.HasPrefix(x.s, "slice0") {
			return Elems()
		}
		if x.s == "slice" && st.Is(EqInt(LenOf(x), Int(0))) {
			return Elems()
		}
		if n, ok := LenOf(x).isInt(); ok && n > 0 && n <= 8 && st.kv["__copied"+fmt.Sprint(x.id)] == "" {
			var el []*Term
			for i := int64(0); i < n; i++ {
				if v, ok := st.mem[EA(x, Int(i))]; ok {
					el = append(el, v)
				}
			}
			for k := range st.mem {
				if k.op == OEA && k.args[0] == x {
					if _, isc := k.args[1].isInt(); !isc {
						el = nil
					}
				}
			}
			if int64(len(el)) == n {
				return SliceT(Elems(el...), lo, hi)
			}
		}
	}
	return t
}

func contents(x *Term) *Term { return FA(x, "[*]") }

// ---- running

func (e *Engine) runState(st *State) {
	for !st.dead {
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.idx]
		if !e.exec(st, in) {
			return
		}
	}
}

func norm(t *Term) *Term {
	switch t.op {
	case ONot:
		return Not(norm(t.args[0]))
	case OEq:
		if t.s == "i" && t.args[0].op == OCall && t.args[0].s == "strlen" {
			if n, _ := t.args[1].isInt(); n == 0 {
				return Eq(t.args[0].args[0], Str(""))
			}
		}
	case OLe:
		if t.args[0].op == OCall && t.args[0].s == "strlen" && t.n == 0 {
			return Eq(t.args[0].args[0], Str(""))
		}
	}
	return t
}

// branch forks on a boolean term; each live outcome is continued by k.
func (e *Engine) branch(st *State, c *Term, in ssa.Instruction, k func(s *State, v bool)) {
	c = norm(c)
	neg := false
	for c.op == ONot {
		c = c.args[0]
		neg = !neg
	}
	if c.op == OEq && boolAtom(c.args[0]) && boolAtom(c.args[1]) && st.Truth(c) == U {
		e.branch(st, c.args[0], in, func(s *State, a bool) {
			e.branch(s, c.args[1], in, func(s2 *State, b bool) {
				k(s2, (a == b) != neg)
			})
		})
		return
	}
	do := func(s *State, v bool) {
		s.step(e.P.ipos(in), fmt.Sprintf("[%s is %v]", c, v))
		if e.R.OnBranch != nil {
			e.R.OnBranch(e, s, c, v, in)
		}
		if !s.dead {
			k(s, v != neg)
		}
	}
	switch st.Truth(c) {
	case Y:
		if _, isc := c.isBool(); isc {
			k(st, !neg)
			return
		}
		do(st, true)
		return
	case N:
		if _, isc := c.isBool(); isc {
			k(st, neg)
			return
		}
		do(st, false)
		return
	}
	s2 := st.clone()
	if s2.facts.Assume(c, false) {
		do(s2, false)
		if !s2.dead {
			e.work = append(e.work, s2)
		}
	}
	if st.facts.Assume(c, true) {
		do(st, true)
	} else {
		st.dead = true
	}
}

// boolAtom: a comparison or a negation.
func boolAtom(t *Term) bool {
	switch t.op {
	case OLe, OEq, ONot:
		return true
	}
	return false
}

func (e *Engine) jump(st *State, k int) bool {
	f := st.top()
	from := f.block
	to := from.Succs[k]
	// predecessor index (k-th occurrence when both successors are the same block)
	occ := 0
	for i := 0; i < k; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	li := e.P.loops(f.fn)
	// a boolean carried around a loop is decided before the next iteration
	if l := li.byHeader[to]; l != nil && l.blocks[from] {
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
				continue
			}
			v := norm(e.val(st, ph.Edges[pi]))
			if v.op == OPhi || st.Truth(v) != U {
				continue
			}
			e.branch(st, v, from.Instrs[len(from.Instrs)-1], func(s *State, b bool) {
				if !e.jump(s, k) {
					s.dead = true
				}
			})
			return !st.dead
		}
	}
	// leaving loops
	for _, l := range li.loops {
		if l.blocks[from] && !l.blocks[to] {
			if e.R.OnLoop != nil {
				e.R.OnLoop(e, st, LoopEv{"exit", l, f.ctx, iterOf(l, f.ctx)})
				if st.dead {
					return false
				}
			}
			delete(f.loops, l)
		}
	}
	L := li.byHeader[to]
	back := L != nil && L.blocks[from]
	if back && e.R.OnLoop != nil {
		e.R.OnLoop(e, st, LoopEv{"back", L, f.ctx, iterOf(L, f.ctx)})
		if st.dead {
			return false
		}
	}
	// phis
	nv := map[ssa.Value]*Term{}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		nv[ph] = e.val(st, ph.Edges[pi])
		if back && (boolAtom(nv[ph]) || isBoolType(ph.Type())) {
			switch st.Truth(nv[ph]) {
			case Y:
				nv[ph] = Bool(true)
			case N:
				nv[ph] = Bool(false)
			}
		}
	}
	if L != nil {
		in := func(g *Term) bool { return inLoop(g, L, f.ctx) }
		if !back {
			st.facts.forget(func(t *Term) bool { return t.hasGen(in) })
			for a := range st.mem {
				if a.hasGen(in) {
					delete(st.mem, a)
				}
			}
			ls := &loopState{unroll: e.unrollable(st, L, phis, nv), ind: map[*ssa.Phi]*Term{}}
			f.loops[L] = ls
			for _, ph := range phis {
				if !ls.unroll {
					if t := e.induction(st, L, ph, nv[ph], to, pi); t != nil {
						nv[ph] = t
						ls.ind[ph] = t
					}
				}
			}
			if !ls.unroll {
				st.facts.Assume(EqInt(iterOf(L, f.ctx), Int(0)), true)
			}
			ls.mem = copyMem(st.mem)
			if e.R.OnLoop != nil {
				e.R.OnLoop(e, st, LoopEv{"enter", L, f.ctx, iterOf(L, f.ctx)})
			}
		} else {
			ls := f.loops[L]
			if ls == nil {
				ls = &loopState{mem: copyMem(st.mem)}
				f.loops[L] = ls
			}
			for _, ph := range phis {
				old := f.env[ph]
				nw := nv[ph]
				if e.R.OnPhi != nil {
					e.R.OnPhi(e, st, ph, L, old, nw)
				}
				if ls.unroll {
					continue
				}
				if t := ls.ind[ph]; t != nil {
					nv[ph] = t
					continue
				}
				if e.exactPhi(ph, f.ctx, nw, in, e.R.Widen != nil && e.R.Widen(L)) {
					continue
				}
				op := T.mk(Term{op: OPhi, site: ph, ctx: f.ctx})
				// keep a lower bound of zero when it is preserved
				nv[ph] = op
			}
			lowb := map[*Term]bool{}
			for _, ph := range phis {
				if nv[ph].op == OPhi && nv[ph].site == ssa.Instruction(ph) {
					// lower bound preserved?
					if isIntType(ph.Type()) {
						v := e.val(st, ph.Edges[pi])
						lo, _ := st.facts.bounds(v)
						if lo >= 0 {
							lowb[nv[ph]] = true
						}
					}
				}
			}
			if !ls.unroll {
				st.facts.project(in)
				st.facts.forget(func(t *Term) bool { return t.hasGen(in) })
				e.widenMem(st, ls, L, f.ctx, in)
				st.facts.Assume(Leq(Int(1), iterOf(L, f.ctx)), true)
			} else {
				st.facts.forget(func(t *Term) bool {
					return t.hasGen(func(g *Term) bool { return (g.op == OSite || g.op == OAlloc) && in(g) })
				})
			}
			for t := range lowb {
				st.facts.Assume(Le0(Add(Int(0), t, -1)), true)
			}
			nl := *ls
			nl.mem = copyMem(st.mem)
			f.loops[L] = &nl
		}
	}
	live := e.P.liveness(f.fn).in[to]
	for v := range f.env {
		if !live[v] && !f.carried(v, e.R.KeepPhis) {
			delete(f.env, v)
		}
	}
	for _, ph := range phis {
		f.env[ph] = nv[ph]
	}
	f.block = to
	f.idx = len(phis)
	e.blocks[to] = true
	if len(to.Preds) > 1 {
		return e.visit(st)
	}
	return true
}

// carried: the value is carried around a loop that is being executed (its next value is compared with it).
func (f *Frame) carried(v ssa.Value, all bool) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for l := range f.loops {
		if l.header == ph.Block() {
			return isSliceType(ph.Type()) || isString(ph.Type()) || all
		}
	}
	return false
}

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func iterOf(l *Loop, c *Ctx) *Term { return T.mk(Term{op: OIter, loop: l, ctx: c}) }
func allOf(l *Loop, c *Ctx) *Term  { return T.mk(Term{op: OItAll, loop: l, ctx: c}) }

// inLoop: the generative leaf g belongs to an instruction executed inside loop L of context ctx.
func inLoop(g *Term, L *Loop, ctx *Ctx) bool {
	c := g.ctx
	var b *ssa.BasicBlock
	switch {
	case g.loop != nil:
		b = g.loop.header
	case g.site != nil:
		b = g.site.Block()
	default:
		return false
	}
	for c != nil && c != ctx {
		if c.call == nil {
			return false
		}
		b = c.call.Block()
		c = c.parent
	}
	return c == ctx && L.blocks[b]
}

func (e *Engine) exactPhi(ph *ssa.Phi, ctx *Ctx, v *Term, in func(*Term) bool, widen bool) bool {
	if v.isConst() {
		if _, isInt := v.isInt(); !isInt {
			if _, isS := v.isStr(); !isS {
				return true
			}
		}
	}
	if v.op == OPhi && v.site == ssa.Instruction(ph) {
		return true
	}
	if v.hasGen(in) || widen {
		return false
	}
	k := fmt.Sprintf("%d/%d", T.sid(ph), ctx.id)
	m := e.phiVals[k]
	if m == nil {
		m = map[*Term]bool{}
		e.phiVals[k] = m
	}
	if m[v] {
		return true
	}
	if len(m) >= 3 {
		return false
	}
	m[v] = true
	return true
}

// stepOf returns the constant step if v is phi + k through affine arithmetic.
func stepOf(v ssa.Value, ph *ssa.Phi) (int64, bool) {
	if v == ssa.Value(ph) {
		return 0, true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
			n, isC := constant.Int64Val(constant.ToInt(c.Value))
			k, ok2 := stepOf(b.X, ph)
			if isC && ok2 {
				if b.Op == token.SUB {
					n = -n
				}
				return k + n, true
			}
		}
		if c, ok := b.X.(*ssa.Const); ok && c.Value != nil && b.Op == token.ADD {
			n, isC := constant.Int64Val(constant.ToInt(c.Value))
			k, ok2 := stepOf(b.Y, ph)
			if isC && ok2 {
				return k + n, true
			}
		}
	}
	return 0, false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) indStep(L *Loop, ph *ssa.Phi) (int64, bool) {
	if !isIntType(ph.Type()) {
		return 0, false
	}
	var step int64
	found := false
	for i, p := range L.header.Preds {
		if !L.blocks[p] {
			continue
		}
		k, ok := stepOf(ph.Edges[i], ph)
		if !ok || (found && k != step) {
			return 0, false
		}
		step, found = k, true
	}
	return step, found && step != 0
}

func (e *Engine) induction(st *State, L *Loop, ph *ssa.Phi, init *Term, to *ssa.BasicBlock, pi int) *Term {
	k, ok := e.indStep(L, ph)
	if !ok {
		return nil
	}
	return Add(init, iterOf(L, st.top().ctx), k)
}

func (e *Engine) unrollable(st *State, L *Loop, phis []*ssa.Phi, nv map[ssa.Value]*Term) bool {
	in, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	b, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	ev := func(v ssa.Value) (int64, bool) {
		if i, ok := v.(ssa.Instruction); ok && L.blocks[i.Block()] {
			// len of something defined outside
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					a := c.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && L.blocks[ai.Block()] {
						return 0, false
					}
					return LenOf(e.list(st, e.val(st, a))).isInt()
				}
			}
			return 0, false
		}
		return e.val(st, v).isInt()
	}
	try := func(x, y ssa.Value) bool {
		n, ok := ev(y)
		if !ok || n > 12 {
			return false
		}
		for _, ph := range phis {
			if k, ok := stepOf(x, ph); ok {
				_ = k
				if _, isI := nv[ph].isInt(); isI {
					if s, ok := e.indStep(L, ph); ok && s > 0 {
						return true
					}
				}
			}
		}
		return false
	}
	return try(b.X, b.Y) || try(b.Y, b.X)
}

func (e *Engine) widenMem(st *State, ls *loopState, L *Loop, ctx *Ctx, in func(*Term) bool) {
	it, all := iterOf(L, ctx), allOf(L, ctx)
	nm := map[*Term]*Term{}
	type lostAt struct {
		b   *Term
		pat string
	}
	lost := map[lostAt]bool{}
	for a, v := range st.mem {
		if a.hasGen(in) {
			// the cells written in earlier iterations are unknown from now on
			b := a
			for b.hasGen(in) && (b.op == OFA || b.op == OEA || b.op == OME || b.op == OLD || b.op == OSlice) {
				b = b.args[0]
			}
			if b != a && !b.hasGen(in) {
				pat := path(b, a)
				if i := strings.LastIndex(pat, "*/"); i >= 0 {
					pat = pat[:i+2]
				}
				lost[lostAt{b, pat}] = true
			}
			if e.R.KeepAll && !a.hasGen(func(g *Term) bool { return in(g) && g != it && g != all }) {
				nm[a.subst(it, all)] = v.subst(it, all)
			}
			continue
		}
		old, had := ls.mem[a]
		if had && old == v {
			nm[a] = v
			continue
		}
		if v.isConst() {
			if _, isInt := v.isInt(); !isInt {
				if _, isS := v.isStr(); !isS {
					nm[a] = v
					continue
				}
			}
		}
		if !v.hasGen(in) {
			k := fmt.Sprintf("m%d/%d", a.id, ctx.id)
			m := e.phiVals[k]
			if m == nil {
				m = map[*Term]bool{}
				e.phiVals[k] = m
			}
			if m[v] || len(m) < 2 {
				m[v] = true
				nm[a] = v
				continue
			}
		}
		nm[a] = T.mk(Term{op: OMPhi, args: []*Term{a}, loop: L, ctx: ctx})
	}
	st.mem = nm
	// memory havocked inside the loop
	var nh []hv
	for _, h := range st.hvs {
		if !h.base.hasGen(in) {
			nh = append(nh, h)
		}
	}
	st.hvs = nh
	var bases []lostAt
	for b := range lost {
		bases = append(bases, b)
	}
	sort.Slice(bases, func(i, j int) bool {
		if bases[i].b != bases[j].b {
			return bases[i].b.id < bases[j].b.id
		}
		return bases[i].pat < bases[j].pat
	})
	for _, l := range bases {
		ver := e.ver(fmt.Sprintf("w%d-%d%s", l.b.id, ctx.id, l.pat))
		had := false
		for _, h := range st.hvs {
			if h.base == l.b && h.ver == ver {
				had = true
			}
		}
		if !had {
			st.hvs = append(st.hvs, hv{l.b, ver, l.pat})
		}
	}
}

// prune forgets memory and facts that cannot be observed any more.
func (e *Engine) prune(st *State) {
	reach := map[*Term]bool{}
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, g := range t.gen {
			reach[g] = true
		}
	}
	for _, t := range e.R.Roots {
		mark(t)
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			mark(v)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mark(a)
			}
			mark(d.fn)
		}
	}
	alive := func(g *Term) bool {
		if g.op == OIter || g.op == OItAll {
			return true
		}
		return reach[g]
	}
	for ch := true; ch; {
		ch = false
		for a, v := range st.mem {
			// the object holding the cell must be reachable
			ok := true
			for _, g := range a.gen {
				if !alive(g) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for _, g := range v.gen {
				if !reach[g] {
					reach[g] = true
					ch = true
				}
			}
		}
	}
	for a := range st.mem {
		for _, g := range a.gen {
			if !alive(g) {
				delete(st.mem, a)
				break
			}
		}
	}
	var nh []hv
	for _, h := range st.hvs {
		ok := true
		for _, g := range h.base.gen {
			if !alive(g) {
				ok = false
			}
		}
		if ok {
			nh = append(nh, h)
		}
	}
	st.hvs = nh
	kvText := ""
	for _, v := range st.kv {
		kvText += v + " "
	}
	st.facts.forget(func(t *Term) bool {
		if e.R.KeepFact != nil && !e.R.KeepFact(t) {
			return true
		}
		for _, g := range t.gen {
			if !alive(g) && !strings.Contains(kvText, fmt.Sprintf("t%d ", g.id)) {
				return true
			}
		}
		return false
	})
}

// ref renders a term so that a monitor can keep it in its state.
func ref(t *Term) string {
	s := fmt.Sprintf("t%d ", t.id)
	for _, g := range t.gen {
		if g != t {
			s += fmt.Sprintf("t%d ", g.id)
		}
	}
	return s
}

func unref(s string) *Term {
	var id int
	if _, err := fmt.Sscanf(s, "t%d", &id); err != nil || id < 1 || id > len(T.all) {
		return nil
	}
	return T.all[id-1]
}

func (e *Engine) visit(st *State) bool {
	e.prune(st)
	b := make([]byte, 0, 512)
	for _, f := range st.frames {
		b = num(b, int64(f.ctx.id))
		b = num(b, int64(f.block.Index))
		b = num(b, int64(f.idx))
		if f.isDef {
			b = append(b, 'd')
		}
		var ids []string
		for v, t := range f.env {
			ids = append(ids, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ids)
		for _, s := range ids {
			b = append(b, s...)
			b = append(b, ',')
		}
		for _, d := range f.defers {
			b = num(b, int64(T.sid(d.instr)))
			for _, a := range d.args {
				b = num(b, int64(a.id))
			}
		}
		b = append(b, '/')
	}
	var ms []string
	for a, v := range st.mem {
		ms = append(ms, fmt.Sprintf("%d:%d", a.id, v.id))
	}
	sort.Strings(ms)
	for _, s := range ms {
		b = append(b, s...)
		b = append(b, ',')
	}
	for _, h := range st.hvs {
		b = num(b, int64(h.base.id))
		b = num(b, h.ver)
	}
	b = append(b, '#')
	b = st.facts.key(b)
	var ks []string
	for k, v := range st.kv {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	b = append(b, strings.Join(ks, ";")...)
	k := string(b)
	if e.visited[k] {
		return false
	}
	e.visited[k] = true
	e.states++
	return true
}

// exec executes one instruction; false ends the path.
func (e *Engine) exec(st *State, in ssa.Instruction) bool {
	f := st.top()
	set := func(v *Term) { f.env[in.(ssa.Value)] = v }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		el := deref(x.Type())
		lab, n := "var", int64(0)
		if a, ok := el.Underlying().(*types.Array); ok {
			lab, n = "array", a.Len()
		}
		t := T.mk(Term{op: OAlloc, s: lab, n: n, site: x, ctx: f.ctx, typ: x.Type()})
		e.resetAlloc(st, t)
		set(t)
	case *ssa.MakeMap:
		t := T.mk(Term{op: OAlloc, s: "map", site: x, ctx: f.ctx, typ: x.Type()})
		e.resetAlloc(st, t)
		set(t)
	case *ssa.MakeChan:
		t := T.mk(Term{op: OAlloc, s: "chan", site: x, ctx: f.ctx, typ: x.Type(), args: []*Term{e.val(st, x.Size)}})
		e.resetAlloc(st, t)
		set(t)
	case *ssa.MakeSlice:
		ln := e.val(st, x.Len)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "make", []*Term{ln}, in)
		}
		lab := "slice"
		if n, ok := ln.isInt(); ok && n == 0 {
			set(Elems())
			break
		}
		t := T.mk(Term{op: OAlloc, s: lab, site: x, ctx: f.ctx, typ: x.Type()})
		if len(ln.gen) == 0 {
			t = T.mk(Term{op: OAlloc, s: lab, site: x, ctx: f.ctx, typ: x.Type(), args: []*Term{ln}})
		}
		e.resetAlloc(st, t)
		st.facts.Assume(EqInt(LenOf(t), ln), true)
		set(t)
	case *ssa.Store:
		e.Store(st, e.val(st, x.Addr), e.val(st, x.Val), in)
	case *ssa.FieldAddr:
		nm := fieldName(deref(x.X.Type()), x.Field)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "deref", []*Term{e.val(st, x.X)}, in)
		}
		set(FA(e.val(st, x.X), nm))
	case *ssa.Field:
		set(FieldOf(e.val(st, x.X), fieldName(x.X.Type(), x.Field), x.Type()))
	case *ssa.IndexAddr:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "index", []*Term{b, i}, in)
		}
		set(EA(b, i))
	case *ssa.Index:
		b, i := e.val(st, x.X), e.val(st, x.Index)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "index", []*Term{b, i}, in)
		}
		if n, ok := i.isInt(); ok {
			if v := elemAt(b, n); v != nil {
				set(v)
				break
			}
		}
		set(Call("index", b, i))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if e.R.OnOp != nil {
				e.R.OnOp(e, st, "load", []*Term{v}, in)
			}
			set(e.Load(st, v, x.Type()))
		case token.NOT:
			set(Not(v))
		case token.SUB:
			set(Add(Int(0), v, -1))
		case token.ARROW:
			if e.R.OnOp != nil {
				e.R.OnOp(e, st, "recv", []*Term{v}, in)
			}
			r := e.site(st, in, "recv", 0)
			st.facts.forget(func(t *Term) bool { return t.has(r) })
			if x.CommaOk {
				ok := e.site(st, in, "recvok", 1)
				st.facts.forget(func(t *Term) bool { return t.has(ok) })
				set(Tuple(r, ok))
			} else {
				set(r)
			}
		default:
			set(Bin(x.Op.String(), v, nil))
		}
	case *ssa.BinOp:
		if e.R.OnOp != nil && (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.Type()) {
			e.R.OnOp(e, st, "div", []*Term{e.val(st, x.Y)}, in)
		}
		set(e.binop(x, e.val(st, x.X), e.val(st, x.Y)))
	case *ssa.ChangeType:
		set(e.val(st, x.X))
	case *ssa.ChangeInterface:
		set(e.val(st, x.X))
	case *ssa.Convert:
		v := e.val(st, x.X)
		if basicKind(x.Type()) == basicKind(x.X.Type()) && basicKind(x.Type()) != 0 {
			set(v)
		} else if v.isConst() {
			set(convConst(v, x))
		} else {
			set(Call("conv:"+types.TypeString(x.Type().Underlying(), short), v))
		}
	case *ssa.MakeInterface:
		set(T.mk(Term{op: OIface, s: types.TypeString(x.X.Type(), short), args: []*Term{e.val(st, x.X)}, typ: x.X.Type()}))
	case *ssa.Extract:
		set(Ext(e.val(st, x.Tuple), int64(x.Index)))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range x.Bindings {
			b = append(b, e.val(st, v))
		}
		set(T.mk(Term{op: OClosure, fn: x.Fn.(*ssa.Function), args: b}))
	case *ssa.Slice:
		b := e.val(st, x.X)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && b.op != OAlloc {
				_ = a
			}
		}
		var lo, hi *Term
		if x.Low != nil {
			lo = e.val(st, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, x.High)
		}
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "slice", []*Term{b, lo, hi}, in)
		}
		if isString(x.X.Type()) {
			set(T.mk(Term{op: OCall, s: "substr", args: []*Term{b, orInt(lo, 0), orTerm(hi, Call("strlen", b))}}))
			break
		}
		// after copy(x[a:], x[b:]) the prefix of length len-(b-a) is x without [a,b)
		if sh, ok := st.mem[FA(b, "[shift]")]; ok && hi != nil && (lo == nil || isZero(lo)) {
			r := Remove(b, sh.args[0], sh.args[1])
			if LenOf(r) == hi {
				set(r)
				break
			}
		}
		set(SliceT(b, lo, hi))
	case *ssa.TypeAssert:
		v := e.val(st, x.X)
		if v.op == OIface {
			ok := types.Identical(v.typ, x.AssertedType)
			if !ok {
				if it, isI := x.AssertedType.Underlying().(*types.Interface); isI && types.Implements(v.typ, it) {
					ok = true
					if x.CommaOk {
						set(Tuple(v, Bool(true)))
					} else {
						set(v)
					}
					break
				}
			}
			if x.CommaOk {
				if ok {
					set(Tuple(v.args[0], Bool(true)))
				} else {
					set(Tuple(zeroOf(x.AssertedType), Bool(false)))
				}
				break
			}
			if ok {
				set(v.args[0])
				break
			}
		}
		tn := types.TypeString(x.AssertedType, short)
		if x.CommaOk {
			set(Tuple(Call("assert:"+tn, v), Call("is:"+tn, v)))
		} else {
			if e.R.OnOp != nil {
				e.R.OnOp(e, st, "assert", []*Term{v}, in)
			}
			set(Call("assert:"+tn, v))
		}
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.MapUpdate:
		m := e.val(st, x.Map)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "mapset", []*Term{m}, in)
		}
		e.Store(st, ME(m, e.val(st, x.Key)), e.val(st, x.Value), in)
	case *ssa.Range:
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "range", []*Term{e.val(st, x.X)}, in)
		}
		set(Call("range", e.val(st, x.X)))
	case *ssa.Next:
		ok, k, v := e.site(st, in, "next", 0), e.site(st, in, "key", 1), e.site(st, in, "val", 2)
		st.facts.forget(func(t *Term) bool { return t.has(ok) || t.has(k) || t.has(v) })
		set(Tuple(ok, k, v))
	case *ssa.Phi:
		// handled on the edge
	case *ssa.If:
		e.branch(st, e.val(st, x.Cond), in, func(s *State, v bool) {
			k := 1
			if v {
				k = 0
			}
			if !e.jump(s, k) {
				s.dead = true
			}
		})
		return !st.dead
	case *ssa.Jump:
		return e.jump(st, 0)
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, e.val(st, r))
		}
		return e.ret(st, res, in)
	case *ssa.Panic:
		if e.R.OnExit != nil {
			e.R.OnExit(e, st, "panic", in)
		}
		e.ends++
		return false
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			break
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.call(st, d.instr, &d.instr.Call, d.callee, d.fn, d.args, true)
	case *ssa.Defer:
		callee, fv, args := e.resolve(st, &x.Call)
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "defer", args, in)
		}
		f.defers = append(f.defers, deferred{x, fv, callee, args})
	case *ssa.Go:
		callee, fv, args := e.resolve(st, &x.Call)
		if e.R.OnGo != nil {
			e.R.OnGo(e, st, callee, fv, args, in)
		}
		if e.R.RunGo != nil && callee != nil && callee.Blocks != nil && e.P.inRepo(callee) && e.R.RunGo(e, st, callee, args, in) {
			var free []*Term
			if fv != nil {
				free = fv.args
			}
			st.step(e.P.ipos(in), "go "+callee.Name())
			e.pruneFrame(st, f, in)
			e.push(st, callee, T.Ctx(f.ctx, in, callee), in, args, free)
			return true
		}
		for _, a := range args {
			if e.escapes(a) {
				e.Havoc(st, a, in, "go")
			}
		}
	case *ssa.Send:
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "send", []*Term{e.val(st, x.Chan), e.val(st, x.X)}, in)
		}
	case *ssa.Select:
		return e.sel(st, x)
	case *ssa.Call:
		callee, fv, args := e.resolve(st, &x.Call)
		return e.call(st, x, &x.Call, callee, fv, args, false)
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = e.site(st, in, "op", 0)
		}
	}
	f.idx++
	return !st.dead
}

func (e *Engine) escapes(a *Term) bool { return false }

func isZero(t *Term) bool { n, ok := t.isInt(); return ok && n == 0 }
func orInt(t *Term, n int64) *Term {
	if t == nil {
		return Int(n)
	}
	return t
}
func orTerm(t, u *Term) *Term {
	if t == nil {
		return u
	}
	return t
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func basicKind(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		return 1
	case b.Info()&types.IsString != 0:
		return 2
	case b.Info()&types.IsFloat != 0:
		return 3
	}
	return 0
}

func convConst(v *Term, x *ssa.Convert) *Term {
	if isString(x.Type()) {
		if n, ok := v.isInt(); ok {
			return Str(string(rune(n)))
		}
	}
	return Call("conv:"+types.TypeString(x.Type().Underlying(), short), v)
}

func short(p *types.Package) string { return p.Name() }

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (e *Engine) resetAlloc(st *State, t *Term) {
	for k := range st.mem {
		if k.has(t) {
			delete(st.mem, k)
		}
	}
	var nh []hv
	for _, h := range st.hvs {
		if !h.base.has(t) {
			nh = append(nh, h)
		}
	}
	st.hvs = nh
	st.facts.forget(func(x *Term) bool { return x.has(t) })
}

// rename replaces a new object by another term for it.
func (st *State) rename(a, b *Term) {
	for _, f := range st.frames {
		for k, v := range f.env {
			if v != nil && v.has(a) {
				f.env[k] = v.subst(a, b)
			}
		}
	}
	for k, v := range st.mem {
		if k.has(a) {
			delete(st.mem, k)
		} else if v.has(a) {
			st.mem[k] = v.subst(a, b)
		}
	}
}

func (e *Engine) binop(x *ssa.BinOp, a, b *Term) *Term {
	isInt := isIntType(x.X.Type())
	if isInt && e.R.WrapAdd {
		if x.Op == token.ADD && (!a.isConst() && !b.isConst() || huge(a) || huge(b)) {
			return WAdd(a, b)
		}
		if x.Op == token.SUB && (!a.isConst() && !b.isConst() || huge(a)) {
			return WSub(a, b)
		}
	}
	switch x.Op {
	case token.ADD:
		if isInt {
			return Add(a, b, 1)
		}
		if isString(x.X.Type()) {
			return Concat(a, b)
		}
	case token.SUB:
		if isInt {
			return Add(a, b, -1)
		}
	case token.MUL:
		if isInt {
			if n, ok := a.isInt(); ok {
				return Add(Int(0), b, n)
			}
			if n, ok := b.isInt(); ok {
				return Add(Int(0), a, n)
			}
		}
	case token.EQL:
		return norm(Eq(a, b))
	case token.NEQ:
		return Not(norm(Eq(a, b)))
	case token.LSS:
		if isInt {
			return norm(Lt(a, b))
		}
	case token.LEQ:
		if isInt {
			return norm(Leq(a, b))
		}
	case token.GTR:
		if isInt {
			return norm(Lt(b, a))
		}
	case token.GEQ:
		if isInt {
			return norm(Leq(b, a))
		}
	}
	if isInt {
		if av, ok := a.isInt(); ok {
			if bv, ok := b.isInt(); ok && x.Op == token.OR {
				return Int(av | bv)
			}
		}
		return Bin(x.Op.String(), a, b)
	}
	switch x.Op {
	case token.GTR:
		return Bin("<", b, a)
	case token.GEQ:
		return Not(Bin("<", a, b))
	case token.LEQ:
		return Not(Bin("<", b, a))
	}
	return Bin(x.Op.String(), a, b)
}

// lookup forks over the entries of maps with known constant keys.
func (e *Engine) lookup(st *State, x *ssa.Lookup) bool {
	f := st.top()
	m, k := e.val(st, x.X), e.val(st, x.Index)
	finish := func(s *State, v *Term, ok *Term) {
		g := s.top()
		if x.CommaOk {
			g.env[x] = Tuple(v, ok)
		} else {
			g.env[x] = v
		}
		g.idx++
	}
	if isString(x.X.Type()) {
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "index", []*Term{Call("str", m), k}, x)
		}
		finish(st, Call("index", m, k), Bool(true))
		return true
	}
	if e.R.OnOp != nil {
		e.R.OnOp(e, st, "lookup", []*Term{m, k}, x)
	}
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	type ent struct{ k, v *Term }
	var ents []ent
	allConst := m.op == OAlloc
	if m.op == OAlloc {
		for a, v := range st.mem {
			if a.op == OME && a.args[0] == m {
				ents = append(ents, ent{a.args[1], v})
				if !a.args[1].isConst() {
					allConst = false
				}
			}
		}
		if st.version(ME(m, k)) != 0 {
			allConst = false
		}
	} else if gm := e.globalMap(m); gm != nil {
		allConst = true
		for kk, v := range gm {
			ents = append(ents, ent{kk, v})
			if !kk.isConst() {
				allConst = false
			}
		}
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].k.id < ents[j].k.id })
	for _, en := range ents {
		if en.k == k {
			finish(st, en.v, Bool(true))
			return true
		}
	}
	if !allConst || len(ents) > 40 {
		if m.op == OAlloc && allConst == false && len(ents) > 0 {
			// unknown entry: the same as long as the map is not changed
			key := fmt.Sprintf("map%d", st.version(ME(m, k)))
			for _, en := range ents {
				key += fmt.Sprintf(" %d:%d", en.k.id, en.v.id)
			}
			ver := Int(e.ver(key))
			finish(st, Call("lookup", m, k, ver), Call("haskey", m, k, ver))
			return true
		}
		if ver := st.version(ME(m, k)); ver != 0 {
			finish(st, Call("lookup", m, k, Int(ver)), Call("haskey", m, k, Int(ver)))
			return true
		}
		v := Call("lookup", m, k)
		finish(st, v, Call("haskey", m, k))
		return true
	}
	if k.isConst() {
		finish(st, zeroOf(vt), Bool(false))
		return true
	}
	// fork on every known key
	_ = f
	for _, en := range ents {
		c := norm(Eq(k, en.k))
		if st.Truth(c) == N {
			continue
		}
		s2 := st.clone()
		if s2.facts.Assume(c, true) {
			s2.step(e.P.ipos(x), fmt.Sprintf("[%s is true]", c))
			if e.R.OnBranch != nil {
				e.R.OnBranch(e, s2, c, true, x)
			}
			finish(s2, en.v, Bool(true))
			e.work = append(e.work, s2)
		}
		if !st.facts.Assume(c, false) {
			return false
		}
		if e.R.OnBranch != nil {
			e.R.OnBranch(e, st, c, false, x)
		}
	}
	finish(st, zeroOf(vt), Bool(false))
	return true
}

func (e *Engine) sel(st *State, x *ssa.Select) bool {
	n := len(x.States)
	mk := func(s *State, i int) {
		var res []*Term
		res = append(res, Int(int64(i)))
		ok := e.site(s, x, "selok", 99)
		s.facts.forget(func(t *Term) bool { return t.has(ok) })
		res = append(res, ok)
		for j, c := range x.States {
			if c.Dir == types.RecvOnly {
				r := e.site(s, x, "selrecv", int64(j))
				s.facts.forget(func(t *Term) bool { return t.has(r) })
				res = append(res, r)
			}
			if i == j && e.R.OnOp != nil {
				if c.Dir == types.RecvOnly {
					e.R.OnOp(e, s, "recv", []*Term{e.val(s, c.Chan)}, x)
				} else {
					e.R.OnOp(e, s, "send", []*Term{e.val(s, c.Chan), e.val(s, c.Send)}, x)
				}
			}
		}
		s.top().env[x] = Tuple(res...)
		s.top().idx++
	}
	for i := 0; i < n; i++ {
		s2 := st.clone()
		mk(s2, i)
		e.work = append(e.work, s2)
	}
	if !x.Blocking {
		mk(st, -1)
		return true
	}
	return false
}

func (e *Engine) ret(st *State, res []*Term, in ssa.Instruction) bool {
	f := st.top()
	if len(st.frames) > 1 && e.R.OnRet != nil {
		e.R.OnRet(e, st, f.fn, f.call, res)
	}
	if len(st.frames) == 1 {
		if e.R.OnReturn != nil {
			e.R.OnReturn(e, st, res, in)
		}
		e.ends++
		return false
	}
	for l := range f.loops {
		if e.R.OnLoop != nil {
			e.R.OnLoop(e, st, LoopEv{"exit", l, f.ctx, iterOf(l, f.ctx)})
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	c := st.top()
	if f.isDef {
		// back to RunDefers
		return e.visit(st)
	}
	if v, ok := f.call.(ssa.Value); ok {
		e.setResults(c, v, res)
	}
	c.idx++
	return e.visit(st)
}

func (e *Engine) setResults(c *Frame, v ssa.Value, res []*Term) {
	switch len(res) {
	case 0:
	case 1:
		c.env[v] = res[0]
	default:
		c.env[v] = Tuple(res...)
	}
}

// ---- calls

func (e *Engine) resolve(st *State, c *ssa.CallCommon) (*ssa.Function, *Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		r := e.val(st, c.Value)
		args = append(args, r)
		for _, a := range c.Args {
			args = append(args, e.val(st, a))
		}
		if r.op == OIface && r.typ != nil {
			ms := e.P.prog.MethodSets.MethodSet(r.typ)
			if s := ms.Lookup(c.Method.Pkg(), c.Method.Name()); s != nil {
				if fn := e.P.prog.MethodValue(s); fn != nil {
					args[0] = r.args[0]
					return fn, nil, args
				}
			}
		}
		return nil, nil, args
	}
	for _, a := range c.Args {
		args = append(args, e.val(st, a))
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			return fn, nil, args
		}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, nil, args
	}
	v := e.val(st, c.Value)
	switch v.op {
	case OFn:
		return v.fn, nil, args
	case OClosure:
		return v.fn, v, args
	}
	return nil, v, args
}

func calleeName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	o := fn.Object()
	if o == nil {
		return fn.Name()
	}
	f, ok := o.(*types.Func)
	if !ok {
		return fn.Name()
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return "(" + types.TypeString(r.Type(), short) + ")." + f.Name()
	}
	if f.Pkg() == nil {
		return f.Name()
	}
	return f.Pkg().Name() + "." + f.Name()
}

func (e *Engine) call(st *State, in ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, fv *Term, args []*Term, isDef bool) bool {
	f := st.top()
	e.calls++
	finish := func(res []*Term) bool {
		if isDef {
			return true // RunDefers is executed again
		}
		if v, ok := in.(ssa.Value); ok {
			e.setResults(f, v, res)
		}
		f.idx++
		return !st.dead
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, in, b, c, args, finish)
	}
	ev := &CallEv{st: st, instr: in, common: c, callee: callee, args: args, name: calleeName(callee)}
	if c.IsInvoke() && callee == nil {
		ev.name = "invoke:" + types.TypeString(c.Value.Type(), short) + "." + c.Method.Name()
	}
	nres := c.Signature().Results().Len()
	ev.repo = callee != nil && e.P.inRepo(callee) && callee.Blocks != nil
	stop := ev.repo && e.R.Stop != nil && e.R.Stop(callee)
	if ev.repo && f.fn != callee && e.P.inspects(callee) {
		stop, ev.noHavoc = true, true
	}
	if ev.repo && !stop {
		// recursion?
		depth := 0
		for _, fr := range st.frames {
			depth++
			if fr.fn == callee {
				ev.recur = true
			}
		}
		if depth > 30 {
			ev.recur = true
		}
		if ev.recur && e.wrapperOf(callee) {
			ev.recur = false
		}
		if !ev.recur {
			if e.R.Pure && e.P.pureFn(callee) && !e.P.trivial(callee) {
				name := ev.name
				la := make([]*Term, len(args))
				for i, a := range args {
					la[i] = e.list(st, a)
				}
				t := Call(name, la...)
				ev.handled = true
				if e.R.OnCall != nil {
					ev.handled = false
					e.R.OnCall(e, st, ev)
				}
				if len(ev.results) > 0 {
					return finish(ev.results)
				}
				if st.dead {
					return false
				}
				if nres == 1 {
					return finish([]*Term{t})
				}
				var res []*Term
				for i := 0; i < nres; i++ {
					res = append(res, Ext(t, int64(i)))
				}
				return finish(res)
			}
			if e.R.OnInline != nil {
				e.R.OnInline(e, st, callee, args, in)
				if st.dead {
					return false
				}
			}
			var free []*Term
			if fv != nil {
				free = fv.args
			}
			st.step(e.P.ipos(in), "call "+callee.Name())
			e.pruneFrame(st, f, in)
			e.push(st, callee, T.Ctx(f.ctx, in, callee), in, args, free)
			st.top().isDef = isDef
			return true
		}
	}
	// opaque call
	if e.R.OnCall != nil {
		e.R.OnCall(e, st, ev)
		if st.dead {
			return false
		}
	}
	if ev.stop {
		e.ends++
		return false
	}
	if ev.run != nil && ev.run.fn != nil && ev.run.fn.Blocks != nil {
		var free []*Term
		if ev.run.op == OClosure {
			free = ev.run.args
		}
		st.step(e.P.ipos(in), "run "+ev.run.fn.Name())
		e.pruneFrame(st, f, in)
		e.push(st, ev.run.fn, T.Ctx(f.ctx, in, ev.run.fn), in, ev.runArgs, free)
		st.top().isDef = isDef
		return true
	}
	if ev.handled {
		res := ev.results
		if len(res) == 0 && nres > 0 {
			res = e.freshResults(st, in, ev.name, nres)
		}
		return finish(res)
	}
	if ev.name == "errors.Is" && len(args) == 2 && st.Is(Eq(args[0], Nil())) && args[1].op == OLD && args[1].args[0].op == OGlobal {
		// no sentinel is nil
		return finish([]*Term{Bool(false)})
	}
	if exits(ev.name) {
		if e.R.OnExit != nil {
			e.R.OnExit(e, st, ev.name, in)
		}
		e.ends++
		return false
	}
	if !ev.repo {
		if res, ok := e.model(st, ev, c); ok {
			return finish(res)
		}
		if pureLib(ev.name) {
			la := make([]*Term, len(args))
			for i, a := range args {
				la[i] = e.list(st, a)
			}
			t := Call(ev.name, la...)
			if nres == 1 {
				return finish([]*Term{t})
			}
			var res []*Term
			for i := 0; i < nres; i++ {
				res = append(res, Ext(t, int64(i)))
			}
			return finish(res)
		}
	}
	if !ev.noHavoc && (ev.repo || !readOnlyLib(ev.name)) {
		for i, a := range args {
			if i != 1 && !ev.repo {
				switch ev.name {
				case "(*yaml.Node).Decode", "(*yaml.Decoder).Decode", "yaml.Unmarshal":
					continue
				}
			}
			if u := unwrap(a); isPtrLike(u) {
				e.Havoc(st, u, in, "call")
			}
		}
	}
	res := e.freshResults(st, in, ev.name, nres)
	if ev.noHavoc && nres == 1 && ev.repo && e.P.inspects(callee) {
		v := "error " + ref(res[0]) + " "
		if isBoolType(callee.Signature.Results().At(0).Type()) {
			v = "bool " + ref(res[0]) + " "
		}
		for _, a := range args {
			l := e.list(st, a)
			v += ref(l) + " "
			if l.op == OElems {
				for _, x := range l.args {
					v += ref(x) + " "
				}
			}
		}
		st.Set("inspected:"+ref(res[0]), v)
	}
	return finish(res)
}

// refused: something was inspected and found to be wrong.
func (st *State) refused() bool {
	for _, t := range st.listed("inspected:") {
		isBool := strings.HasPrefix(st.Get("inspected:"+ref(t)), "bool")
		if isBool && st.Is(t) || !isBool && st.IsNot(Eq(t, Nil())) {
			return true
		}
	}
	return false
}

// accepted: x was inspected and nothing was found.
func (st *State) accepted(x *Term) bool {
	for _, t := range st.listed("inspected:") {
		isBool := strings.HasPrefix(st.Get("inspected:"+ref(t)), "bool")
		if isBool && st.IsNot(t) || !isBool && st.Is(Eq(t, Nil())) {
			for _, r := range strings.Fields(st.Get("inspected:" + ref(t)))[2:] {
				if unref(r) == x {
					return true
				}
			}
		}
	}
	return false
}

// acceptedPart: x was inspected, or is a part of what was inspected.
func (st *State) acceptedPart(x *Term) bool {
	for {
		if st.accepted(x) {
			return true
		}
		if x.op != OLD || x.args[0].op != OEA && !(x.args[0].op == OFA && (x.args[0].s == "Content" || x.args[0].s == "Alias")) {
			return false
		}
		x = x.args[0].args[0]
	}
}

// takesNodes: one of the parameters leads to nodes.
func takesNodes(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if typeName(deref(t)) == "yaml.Node" || typeName(t) == "*yaml.Node" {
			return true
		}
	}
	return false
}

func isPtrLike(t *Term) bool {
	switch t.op {
	case OConst, OFn, OEq, OLe, ONot, OAff, OConcat, OCall, OGlobal, OLen, OIter:
		return false
	}
	return true
}

// wrapperOf: compiler generated method wrappers and thunks are never recursion heads.
func (e *Engine) wrapperOf(f *ssa.Function) bool { return false }

func (e *Engine) freshResults(st *State, in ssa.Instruction, name string, n int) []*Term {
	var res []*Term
	for i := 0; i < n; i++ {
		t := e.site(st, in, name, int64(i))
		st.facts.forget(func(x *Term) bool { return x.has(t) })
		for k := range st.mem {
			if k.has(t) {
				delete(st.mem, k)
			}
		}
		res = append(res, t)
	}
	return res
}

func exits(name string) bool {
	switch name {
	case "os.Exit", "(*logging.Logger).Fatal", "(*logging.Logger).Fatalf", "(*logging.Logger).Panic", "(*logging.Logger).Panicf",
		"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf":
		return true
	}
	return false
}

// pruneFrame drops what the caller does not need after the call.
func (e *Engine) pruneFrame(st *State, f *Frame, in ssa.Instruction) {
	live := e.P.liveOut(e.P.liveness(f.fn), f.block)
	var rands [32]*ssa.Value
	start := f.idx + 1
	if _, ok := in.(*ssa.Defer); ok {
		start = f.idx
	}
	for k := start; k < len(f.block.Instrs); k++ {
		for _, o := range f.block.Instrs[k].Operands(rands[:0]) {
			if *o != nil {
				live[*o] = true
			}
		}
	}
	for v := range f.env {
		if !live[v] && !f.carried(v, e.R.KeepPhis) {
			delete(f.env, v)
		}
	}
}

func (e *Engine) builtin(st *State, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, finish func([]*Term) bool) bool {
	switch b.Name() {
	case "len":
		if isString(c.Args[0].Type()) {
			if s, ok := args[0].isStr(); ok {
				return finish([]*Term{Int(int64(len(s)))})
			}
			return finish([]*Term{Call("strlen", args[0])})
		}
		return finish([]*Term{LenOf(e.list(st, args[0]))})
	case "cap":
		return finish([]*Term{Call("cap", args[0])})
	case "append":
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "append", args, in)
		}
		y := args[1]
		if isString(c.Args[1].Type()) {
			y = Call("bytes", y)
		}
		return finish([]*Term{Cat(e.list(st, args[0]), e.list(st, y))})
	case "copy":
		d, s := args[0], args[1]
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "copy", args, in)
		}
		db, sb := d, s
		var dlo, slo *Term = Int(0), Int(0)
		if d.op == OSlice {
			db = d.args[0]
			if d.args[1] != nil {
				dlo = d.args[1]
			}
		}
		if s.op == OSlice {
			sb = s.args[0]
			if s.args[1] != nil {
				slo = s.args[1]
			}
		}
		switch {
		case db == sb && (d.op != OSlice || d.args[2] == nil) && (s.op != OSlice || s.args[2] == nil):
			st.mem[FA(db, "[shift]")] = Tuple(dlo, slo)
		case db.op == OAlloc && isZero(dlo) && (st.Is(EqInt(LenOf(d), LenOf(e.list(st, s))))):
			st.mem[contents(db)] = e.list(st, s)
		case db.op == OAlloc && db.s == "slice" && e.copyPart(st, db, dlo, e.list(st, s)):
		default:
			e.Havoc(st, db, in, "copy")
		}
		return finish([]*Term{e.site(st, in, "copied", 0)})
	case "close":
		if e.R.OnOp != nil {
			e.R.OnOp(e, st, "close", args, in)
		}
		return finish(nil)
	case "delete":
		if args[0].op == OAlloc {
			e.Havoc(st, args[0], in, "delete")
		}
		return finish(nil)
	case "recover":
		return finish([]*Term{Nil()})
	case "print", "println":
		return finish(nil)
	case "ssa:wrapnilchk":
		return finish([]*Term{args[0]})
	case "min", "max":
		return finish([]*Term{Call(b.Name(), args...)})
	}
	return finish(e.freshResults(st, in, b.Name(), c.Signature().Results().Len()))
}

// copyPart: a slice filled by several copies one behind the other.
func (e *Engine) copyPart(st *State, db, lo, s *Term) bool {
	cell := FA(db, "[pre]")
	p := Elems()
	if v, ok := st.mem[cell]; ok {
		p = v
	}
	if LenOf(p) != lo {
		return false
	}
	p = Cat(p, s)
	if st.Truth(Lt(LenOf(db), LenOf(p))) != N {
		return false
	}
	st.mem[cell] = p
	if st.Is(EqInt(Add(LenOf(db), LenOf(p), -1), Int(0))) {
		st.mem[contents(db)] = p
	}
	return true
}

// model gives the meaning of library functions the properties depend on.
func (e *Engine) model(st *State, ev *CallEv, c *ssa.CallCommon) ([]*Term, bool) {
	a := ev.args
	switch ev.name {
	case "reprint.FromTo":
		from, to := unwrap(a[0]), unwrap(a[1])
		var ty types.Type
		if a[1].op == OIface && a[1].typ != nil {
			ty = deref(a[1].typ)
		}
		v := e.Load(st, from, ty)
		v = e.list(st, v)
		e.Store(st, to, deepOf(v), ev.instr)
		if from.op != OAlloc && to.op == OAlloc && to.s == "var" {
			if _, is := deref(to.typ).Underlying().(*types.Struct); is && from.op != OFA {
				// the new object is the copy of what from leads to
				st.rename(to, Deep(from))
			}
		}
		return []*Term{e.freshResults(st, ev.instr, "reprint", 1)[0]}, true
	case "strings.EqualFold":
		if s, ok := a[1].isStr(); ok {
			return []*Term{Eq(Call("strings.ToLower", a[0]), Str(strings.ToLower(s)))}, true
		}
		if s, ok := a[0].isStr(); ok {
			return []*Term{Eq(Call("strings.ToLower", a[1]), Str(strings.ToLower(s)))}, true
		}
	case "strings.Replace":
		if n, ok := a[3].isInt(); ok && n < 0 {
			return []*Term{Call("strings.ReplaceAll", a[0], a[1], a[2])}, true
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		return nil, false
	case "(*regexp.Regexp).SubexpIndex":
		if a[0].op == OCall && a[0].s == "regexp.MustCompile" {
			p, ok1 := a[0].args[0].isStr()
			name, ok2 := a[1].isStr()
			if x, err := regexp.Compile(p); ok1 && ok2 && err == nil {
				return []*Term{Int(int64(x.SubexpIndex(name)))}, true
			}
		}
	case "strconv.ParseInt":
		if n, ok := a[1].isInt(); ok && n == 10 {
			t := Call("strconv.Atoi", a[0])
			return []*Term{Ext(t, 0), Ext(t, 1)}, true
		}
	case "strconv.FormatInt":
		if n, ok := a[1].isInt(); ok && n == 10 {
			return []*Term{Call("strconv.Itoa", a[0])}, true
		}
	}
	if strings.HasPrefix(ev.name, "(*logging.Logger).") {
		return e.freshResults(st, ev.instr, ev.name, c.Signature().Results().Len()), true
	}
	return nil, false
}

func deepOf(v *Term) *Term {
	if v.op == OElems {
		var l []*Term
		for _, x := range v.args {
			l = append(l, Deep(x))
		}
		return Elems(l...)
	}
	return Deep(v)
}

func pkgOfName(n string) string {
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	if i := strings.Index(n, "."); i >= 0 {
		return n[:i]
	}
	return ""
}

// pureLib: library functions whose result depends on their arguments only (for
// viper getters: on the configuration, which does not change while files are processed).
func pureLib(n string) bool {
	switch pkgOfName(n) {
	case "strings":
		return !strings.HasPrefix(n, "(")
	case "strconv", "path", "unicode", "utf8", "cmp", "cmpopts", "sed":
		return true
	case "regexp":
		return true
	case "errors":
		return true
	case "fmt":
		return strings.HasPrefix(n, "fmt.Sprint") || n == "fmt.Errorf"
	case "filepath":
		switch n {
		case "filepath.Base", "filepath.Ext", "filepath.Dir", "filepath.Join", "filepath.Clean", "filepath.IsAbs", "filepath.Abs", "filepath.Rel":
			return true
		}
	case "viper":
		return strings.HasPrefix(n, "viper.Get") || n == "viper.IsSet" || n == "viper.ConfigFileUsed"
	case "yaml":
		switch n {
		case "(yaml.Node).IsZero", "(*yaml.Node).IsZero", "(*yaml.Node).LongTag", "(*yaml.Node).ShortTag":
			return true
		}
	case "os":
		return n == "os.IsNotExist" || n == "os.IsExist" || n == "os.Getenv"
	case "logging":
		return n == "logging.LogLevel"
	}
	return false
}

// readOnlyLib: library functions that do not change the objects passed to them.
func readOnlyLib(n string) bool {
	switch n {
	case "(*yamlpath.Path).Find", "yamlpath.NewPath", "cmp.Equal", "(*yaml.Encoder).Encode", "(*os.File).Name",
		"(*os.File).Close", "(*os.File).WriteString", "(*os.File).Write", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String",
		"yaml.Marshal", "io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "fmt.Print", "fmt.Printf", "fmt.Println":
		return true
	}
	return false
}

// pureFn: repository functions over plain data without side effects.
// trivial: neither loops nor calls.
func (P *Program) trivial(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return len(P.loops(f).loops) == 0
}

func (P *Program) pureFn(f *ssa.Function) bool {
	switch P.pure[f] {
	case Y:
		return true
	case N:
		return false
	}
	P.pure[f] = N // recursion: not pure
	ok := P.pureCheck(f)
	if ok {
		P.pure[f] = Y
	}
	return ok
}

func plain(t types.Type, variadic bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		if variadic {
			if i, ok := u.Elem().Underlying().(*types.Interface); ok && i.Empty() {
				return true
			}
		}
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

func (P *Program) pureCheck(f *ssa.Function) bool {
	if f.Blocks == nil || f.Parent() != nil {
		return false
	}
	sig := f.Signature
	if sig.Recv() != nil && !plain(sig.Recv().Type(), false) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !plain(sig.Params().At(i).Type(), sig.Variadic() && i == sig.Params().Len()-1) {
			return false
		}
	}
	if sig.Results().Len() == 0 || sig.Params().Len() == 0 && sig.Recv() == nil {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if !plain(rt, false) && !isErrorType(rt) {
			return false
		}
	}
	return P.noEffects(f, map[*ssa.Function]bool{})
}

// noEffects: the function writes only memory it allocated itself (or its own variadic slice).
func (P *Program) noEffects(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	return P.effectsIn(f, seen, false)
}

// inspects: a recursive function that only looks at what it is given (and remembers in a map it is handed where it has
// been), and says what is wrong with it.
func (P *Program) inspects(f *ssa.Function) bool {
	v, ok := P.inspect[f]
	if !ok {
		if P.inspect == nil {
			P.inspect = map[*ssa.Function]bool{}
		}
		r := f.Signature.Results()
		v = r.Len() == 1 && (isErrorType(r.At(0).Type()) || isBoolType(r.At(0).Type())) && takesNodes(f) && f.Parent() == nil && P.recursive(f) && P.effectsIn(f, map[*ssa.Function]bool{}, true)
		P.inspect[f] = v
	}
	return v
}

func (P *Program) effectsIn(f *ssa.Function, seen map[*ssa.Function]bool, maps bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(f, x.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.Parameter); !localAddr(f, x.Map) && !(maps && ok) {
					return false
				}
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "close", "delete", "copy", "panic":
						return false
					}
					continue
				}
				c := x.Call.StaticCallee()
				if c == nil {
					return false
				}
				if P.inRepo(c) && c.Blocks != nil {
					if !P.effectsIn(c, seen, maps) {
						return false
					}
					continue
				}
				n := calleeName(c)
				if !pureLib(n) && !strings.HasPrefix(n, "(*logging.Logger).") && n != "strings.NewReader" {
					return false
				}
				if exits(n) {
					return false
				}
			}
		}
	}
	return true
}

func localAddr(f *ssa.Function, v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return true
		case *ssa.Parameter:
			sig := f.Signature
			return sig.Variadic() && len(f.Params) > 0 && f.Params[len(f.Params)-1] == x
		case *ssa.Phi:
			return false
		default:
			return false
		}
	}
}

// ---- package level variables

type globInfo struct {
	done bool
	val  *Term
	m    map[*Term]*Term
}

// globalOf finds the ssa.Global behind an address term.
func (e *Engine) globalOf(addr *Term) *ssa.Global {
	for _, sp := range e.P.ssa {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && globalAddr(g) == addr {
				return g
			}
		}
	}
	return nil
}

func (e *Engine) globInfo(addr *Term) *globInfo {
	g := e.globalOf(addr)
	if g == nil {
		return nil
	}
	if gi, ok := e.P.glob[g]; ok {
		return gi
	}
	gi := &globInfo{done: true}
	e.P.glob[g] = gi
	// written only by the package initializer, address not taken otherwise
	var initStore *ssa.Store
	ok := true
	for _, fn := range append(append([]*ssa.Function{}, e.P.fns...), g.Pkg.Func("init")) {
		if fn == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && fn.Name() == "init" && fn.Parent() == nil {
							initStore = x
						} else {
							ok = false
						}
					case *ssa.UnOp:
					case *ssa.IndexAddr, *ssa.FieldAddr:
						if fn.Name() != "init" {
							ok = false
						}
					default:
						ok = false
					}
				}
			}
		}
	}
	if !ok || initStore == nil {
		return gi
	}
	switch v := initStore.Val.(type) {
	case *ssa.Const:
		if v.Value != nil {
			gi.val = Const(v.Value)
		}
	case *ssa.Call:
		if k := v.Call.StaticCallee(); k != nil && calleeName(k) == "regexp.MustCompile" {
			if x, ok := v.Call.Args[0].(*ssa.Const); ok && x.Value != nil {
				gi.val = Call("regexp.MustCompile", Const(x.Value))
			}
		}
	case *ssa.MakeMap:
		gi.m = map[*Term]*Term{}
		for _, r := range *v.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				kc, ok1 := mu.Key.(*ssa.Const)
				vc, ok2 := mu.Value.(*ssa.Const)
				if !ok1 || !ok2 || kc.Value == nil || vc.Value == nil {
					gi.m = nil
					return gi
				}
				gi.m[Const(kc.Value)] = Const(vc.Value)
			}
		}
		// the map must not be modified elsewhere
		for _, fn := range e.P.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
							gi.m = nil
							return gi
						}
					}
				}
			}
		}
	case *ssa.Slice:
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return gi
		}
		at, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok {
			return gi
		}
		el := make([]*Term, at.Len())
		for i := range el {
			el[i] = zeroOf(at.Elem())
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ic, ok := ia.Index.(*ssa.Const)
			if !ok {
				return gi
			}
			for _, rr := range *ia.Referrers() {
				if s, ok := rr.(*ssa.Store); ok {
					vc, ok := s.Val.(*ssa.Const)
					if !ok || vc.Value == nil {
						return gi
					}
					el[ic.Int64()] = Const(vc.Value)
				}
			}
		}
		gi.val = Elems(el...)
	}
	return gi
}

func (e *Engine) globalValue(addr *Term) *Term {
	if gi := e.globInfo(addr); gi != nil {
		return gi.val
	}
	return nil
}

func (e *Engine) globalMap(m *Term) map[*Term]*Term {
	if m.op == OLD && m.args[0].op == OGlobal {
		if gi := e.globInfo(m.args[0]); gi != nil {
			return gi.m
		}
	}
	return nil
}
