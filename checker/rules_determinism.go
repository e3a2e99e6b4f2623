package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleDeterminism: nothing but the input decides what is output (C15).
func ruleDeterminism(c *Check) {
	c.rule("Every iteration over a map (or another source without an order: map keys of reflection, unsorted directory listings, the keys of the settings) has an effect that does not depend on the order: per iteration only the entry of that key, objects of that iteration or the entry's own value, the same constant, or a commutative sum are written; lists that are filled are sorted before anything else reads them; the iteration is left early only with one and the same constant.")
	c.rule("The time, random numbers, process identities, addresses, numbers of goroutines, lengths of channels and results of atomic operations or of attempts to lock flow nowhere but into log messages.")
	c.rule("No choice among several ready channels, no non-blocking operation on a channel that goroutines share, and no value other than an error or a signal sent by a per-file goroutine into a channel that other files use.")
	c.rule("What depends on the schedule by its structure (C01, C04, C10): a file's overlays are applied by one goroutine and in order, no object is written by one file's goroutine that another can see, and output starts after Wait, in the order in which files are listed.")
	P := c.P
	d := &determinism{c: c, P: P}
	n := 0
	for _, f := range P.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		switch pkgShort(f) {
		case "instructions", "overlays", "actions", "builder":
		default:
			continue
		}
		n++
		c.fns[f] = true
		d.function(f)
	}
	c.least("functions analysed", n, 60)
	d.shared()
	d.scheduling()
	c.least("calls classified", d.calls, 200)
	c.calls += d.calls
}

type determinism struct {
	c     *Check
	P     *Program
	calls int
	pure  map[*ssa.Function]tri
}

func (d *determinism) bad(in ssa.Instruction, key, format string, a ...interface{}) {
	d.c.Must(false, key+"|"+fnLabel(in.Parent()), d.P.ipos(in), format, a...)
}

func (d *determinism) function(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					d.mapRange(x)
				}
			case *ssa.Select:
				d.choice(x)
			case *ssa.Convert:
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
					d.bad(x, "address", "an address is turned into a value")
				}
			case ssa.CallInstruction:
				d.call(x)
			}
		}
	}
}

// ---- sources

func nondeterministic(n string) string {
	switch n {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc":
		return "the time"
	case "os.Getpid", "os.Getppid", "os.Hostname", "os.Getuid", "os.Geteuid":
		return "the identity of the process"
	case "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "runtime.Stack", "runtime.Caller", "runtime.Callers":
		return "the state of the runtime"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock", "(*errgroup.Group).TryGo":
		return "scheduling"
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).Addr":
		if n == "(reflect.Value).Addr" {
			return ""
		}
		return "an address"
	}
	switch pkgOfName(n) {
	case "rand":
		return "a random number"
	case "maphash", "uuid":
		return "a random number"
	case "atomic":
		return "scheduling"
	}
	return ""
}

// withoutOrder: library functions that list something in no particular order.
func withoutOrder(n string) bool {
	switch n {
	case "maps.Keys", "maps.Values", "maps.All", "(reflect.Value).MapKeys", "(reflect.Value).MapRange",
		"viper.AllKeys", "(*viper.Viper).AllKeys", "(*os.File).Readdirnames", "(*os.File).Readdir", "(*os.File).ReadDir":
		return true
	}
	return false
}

func sorts(n string) bool {
	if n == "slices.Sorted" || n == "slices.SortedFunc" || n == "slices.SortedStableFunc" {
		return true
	}
	return strings.HasPrefix(n, "slices.Sort") || n == "sort.Strings" || n == "sort.Ints" || n == "sort.Slice" || n == "sort.SliceStable" || n == "sort.Sort" || n == "sort.Stable" || n == "sort.Float64s"
}

func generic(n string) string {
	if i := strings.IndexByte(n, '['); i >= 0 {
		return n[:i]
	}
	return n
}

func (d *determinism) call(x ssa.CallInstruction) {
	d.calls++
	com := x.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" || b.Name() == "cap" {
			if _, isC := com.Args[0].Type().Underlying().(*types.Chan); isC && b.Name() == "len" && !d.confined(com.Args[0]) {
				if w := d.leaks(x.Value(), map[ssa.Value]bool{}); w != nil {
					d.bad(x, "scheduling", "the number of values waiting in a channel decides something")
				}
			}
		}
		return
	}
	n, _ := callName(x)
	n = generic(n)
	if n == "" {
		return
	}
	if n == "(*sync.Map).Range" {
		d.bad(x, "order", "a sync.Map is gone through, which has no order")
		return
	}
	if what := nondeterministic(n); what != "" && x.Value() != nil {
		if w := d.leaks(x.Value(), map[ssa.Value]bool{}); w != nil {
			d.bad(x, "source", "%s (%s) is used at %s", what, n, d.P.ipos(w))
		}
		return
	}
	if withoutOrder(n) && x.Value() != nil {
		d.sortedFirst(x, x.Value())
		return
	}
	// addresses in texts
	if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strconv.") {
		for _, a := range com.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "%p") {
				if x.Value() == nil {
					continue
				}
				if w := d.leaks(x.Value(), map[ssa.Value]bool{}); w != nil {
					d.bad(x, "address", "an address becomes part of a text")
				}
			}
		}
	}
}

func isLogCall(n string) bool {
	return strings.HasPrefix(n, "(*logging.Logger).") || strings.HasPrefix(n, "log.") && !strings.HasPrefix(n, "log.New")
}

// leaks: an instruction through which the value reaches something else than a log message.
func (d *determinism) leaks(v ssa.Value, seen map[ssa.Value]bool) ssa.Instruction {
	if v == nil || seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		if w := d.leak(v, r, seen); w != nil {
			return w
		}
	}
	return nil
}

func (d *determinism) leak(v ssa.Value, r ssa.Instruction, seen map[ssa.Value]bool) ssa.Instruction {
	switch x := r.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Store:
		if x.Val != v {
			return nil // something is stored into the object itself
		}
		switch a := x.Addr.(type) {
		case *ssa.Alloc:
			return d.leaks(a, seen)
		case *ssa.IndexAddr:
			if al, ok := a.X.(*ssa.Alloc); ok {
				return d.leaks(al, seen)
			}
		}
		return r
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.UnOp, *ssa.BinOp, *ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Phi, *ssa.TypeAssert:
		return d.leaks(r.(ssa.Value), seen)
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			if b == v {
				if w := d.leaks(x.Fn.(*ssa.Function).FreeVars[i], seen); w != nil {
					return w
				}
			}
		}
		return nil
	case ssa.CallInstruction:
		n, f := callName(x)
		if isLogCall(n) {
			return nil
		}
		if f != nil && d.P.inRepo(f) && f.Blocks != nil {
			for i, a := range x.Common().Args {
				if a == v && i < len(f.Params) {
					if w := d.leaks(f.Params[i], seen); w != nil {
						return w
					}
				}
			}
			return nil
		}
		switch pkgOfName(n) {
		case "time", "fmt", "strconv", "strings", "math":
			if !strings.HasPrefix(n, "fmt.F") && !strings.HasPrefix(n, "fmt.P") && n != "time.Sleep" {
				if x.Value() != nil {
					return d.leaks(x.Value(), seen)
				}
				return nil
			}
			if n == "time.Sleep" {
				return nil
			}
		case "rand":
			if x.Value() != nil {
				return d.leaks(x.Value(), seen)
			}
			return nil
		case "atomic":
			return nil // its own results are looked at where it is called
		}
		return r
	}
	return r
}

// ---- order

// insideLoop: the loop a Range's iterator is advanced in.
func (d *determinism) rangeLoop(x *ssa.Range) (*Loop, *ssa.Next) {
	for _, r := range *x.Referrers() {
		if nx, ok := r.(*ssa.Next); ok {
			for _, l := range d.P.loops(x.Parent()).loops {
				if l.header == nx.Block() {
					return l, nx
				}
			}
			return nil, nx
		}
	}
	return nil, nil
}

type iteration struct {
	d    *determinism
	l    *Loop
	nx   *ssa.Next
	key  map[ssa.Value]bool
	val  map[ssa.Value]bool
	skip map[ssa.Value]bool
	// variables that are lists filled by the loop
	lists map[*ssa.Alloc]ssa.Instruction
}

func (d *determinism) mapRange(x *ssa.Range) {
	l, nx := d.rangeLoop(x)
	d.c.oblig++
	if nx == nil {
		return
	}
	it := &iteration{d: d, l: l, nx: nx, key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, lists: map[*ssa.Alloc]ssa.Instruction{}}
	for _, r := range *nx.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				it.key[ex] = true
			case 2:
				it.val[ex] = true
			}
		}
	}
	if l == nil {
		// only the first entry is looked at
		if len(it.key)+len(it.val) > 0 {
			d.bad(nx, "order", "one entry of a map is picked, which can be any of them")
		}
		return
	}
	it.judge()
}

func (it *iteration) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && it.l.blocks[in.Block()] && in.Parent() == it.l.fn
}

// own: an object that belongs to the iteration alone: made by it, or the entry's own.
func (it *iteration) own(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if it.key[v] || it.val[v] {
		return true
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return it.inside(x)
	case *ssa.MakeMap, *ssa.MakeSlice:
		return it.inside(v)
	case *ssa.FieldAddr:
		return it.own(x.X, seen)
	case *ssa.IndexAddr:
		return it.own(x.X, seen)
	case *ssa.Field:
		return it.own(x.X, seen)
	case *ssa.UnOp:
		return x.Op == token.MUL && it.own(x.X, seen)
	case *ssa.Slice:
		return it.own(x.X, seen)
	case *ssa.Lookup:
		return it.key[x.Index] && !it.inside(x.X)
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return it.own(lk, seen)
		}
	case *ssa.Phi:
		if !it.inside(x) || x.Block() == it.l.header {
			return false
		}
		for _, e := range x.Edges {
			if !it.own(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// fixed: the same in every iteration.
func (it *iteration) fixed(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	return !it.inside(v)
}

func (it *iteration) bad(in ssa.Instruction, format string, a ...interface{}) {
	it.d.bad(in, "order", format+" (iterations over a map have no order)", a...)
}

func (it *iteration) judge() {
	d := it.d
	var exits []exitOf
	for _, b := range it.l.fn.Blocks {
		if !it.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				it.store(x)
			case *ssa.MapUpdate:
				if it.own(x.Map, map[ssa.Value]bool{}) || it.key[x.Key] || it.fixed(x.Value) {
					continue
				}
				it.bad(x, "an entry of a map is set under something else than the key of the iteration")
			case *ssa.Send:
				it.bad(x, "values are sent into a channel")
			case *ssa.Go, *ssa.Defer:
				it.bad(in, "a call is started or deferred")
			case *ssa.Call:
				it.call(x)
			case *ssa.Phi:
				if b == it.l.header {
					it.carried(x)
				}
			case *ssa.Return:
				exits = append(exits, exitOf{in, constsOf(x)})
			}
		}
		for _, s := range b.Succs {
			if it.l.blocks[s] || b == it.l.header {
				continue
			}
			exits = append(exits, it.leave(b, s)...)
		}
	}
	// values of an iteration used after the loop
	for _, b := range it.l.fn.Blocks {
		if it.l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || !it.inside(v) {
					continue
				}
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == it.l.header {
					continue // judged as carried
				}
				if v == ssa.Value(it.nx) || isErrorType(v.Type()) {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue // judged where the loop is left
				}
				if _, isAl := v.(*ssa.Alloc); isAl {
					it.bad(in, "what one iteration made is used after the loop")
					continue
				}
				if d.onlyErrors(in) {
					continue
				}
				it.bad(in, "what one iteration found is used after the loop")
			}
		}
	}
	for i := 1; i < len(exits); i++ {
		if exits[i].what != exits[0].what {
			it.bad(exits[i].in, "the loop is left early in different ways")
		}
	}
	for _, x := range exits {
		if x.what == "?" {
			it.bad(x.in, "the loop is left early with something that depends on the entry")
		}
	}
	for al, w := range it.lists {
		d.sortedVar(it, al, w)
	}
}

type exitOf struct {
	in   ssa.Instruction
	what string
}

// constsOf renders what a return gives when it is constant apart from errors.
func constsOf(r *ssa.Return) string {
	var s []string
	for _, v := range r.Results {
		if isErrorType(v.Type()) {
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				s = append(s, "nil")
			} else {
				return "error"
			}
			continue
		}
		k, ok := v.(*ssa.Const)
		if !ok {
			return "?"
		}
		s = append(s, k.String())
	}
	return strings.Join(s, ",")
}

// leave: what leaving the loop from b to s (not at its end) brings along.
func (it *iteration) leave(b, s *ssa.BasicBlock) []exitOf {
	at := b.Instrs[len(b.Instrs)-1]
	idx := -1
	for i, p := range s.Preds {
		if p == b {
			idx = i
		}
	}
	what := ""
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[idx]
		if k, ok := e.(*ssa.Const); ok {
			what += k.String() + ","
			continue
		}
		if isErrorType(ph.Type()) {
			what = "error"
			break
		}
		if it.inside(e) {
			hp, ok := e.(*ssa.Phi)
			if !ok || hp.Block() != it.l.header {
				return []exitOf{{at, "?"}}
			}
			// an unfinished sum
			if len(hpUses(hp)) > 0 {
				return []exitOf{{at, "?"}}
			}
		}
	}
	// a block outside that only returns
	if r, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok && len(s.Preds) == 1 {
		w := constsOf(r)
		if w == "?" {
			dep := false
			for _, v := range r.Results {
				dep = dep || it.inside(v) || it.dependsOnIteration(v, map[ssa.Value]bool{})
			}
			if !dep {
				w = "fixed"
			}
		}
		return []exitOf{{at, what + w}}
	}
	return []exitOf{{at, what}}
}

func hpUses(p *ssa.Phi) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *p.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func (it *iteration) dependsOnIteration(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if it.inside(v) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && it.dependsOnIteration(*op, seen) {
			return true
		}
	}
	return false
}

// onlyErrors: the instruction makes or reports an error.
func (d *determinism) onlyErrors(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.MakeInterface, *ssa.Slice, *ssa.ChangeInterface:
		for _, r := range *in.(ssa.Value).Referrers() {
			if !d.onlyErrors(r) {
				return false
			}
		}
		return true
	case *ssa.Store:
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					switch y := r.(type) {
					case *ssa.IndexAddr, *ssa.DebugRef:
					case *ssa.Slice:
						if !d.onlyErrors(y) {
							return false
						}
					default:
						return false
					}
				}
				return true
			}
		}
	case *ssa.Call:
		n, _ := callName(x)
		return n == "fmt.Errorf" || n == "errors.New" || isLogCall(n)
	case *ssa.DebugRef:
		return true
	}
	return false
}

func (it *iteration) store(x *ssa.Store) {
	if it.own(x.Addr, map[ssa.Value]bool{}) {
		return
	}
	if _, ok := x.Val.(*ssa.Const); ok {
		return
	}
	if al, ok := x.Addr.(*ssa.Alloc); ok {
		// a variable outside: a sum or a list
		if b, ok := x.Val.(*ssa.BinOp); ok && commutes(b) {
			if isLoadOf(b.X, al) && !it.loads(b.Y, al) || isLoadOf(b.Y, al) && !it.loads(b.X, al) {
				return
			}
		}
		if call, ok := x.Val.(*ssa.Call); ok {
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" && isLoadOf(call.Common().Args[0], al) {
				it.lists[al] = x
				return
			}
		}
	}
	if it.fixed(x.Val) && it.fixed(x.Addr) {
		return
	}
	// the slot of the entry in a list filled by counting: keys[i] = k; i++
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
		if al := variable(ia.X); al != nil {
			it.lists[al] = x
			return
		}
		if it.fixed(ia.X) && it.d.sortedAfter(it, ia.X) {
			return
		}
	}
	it.bad(x, "something that lives longer than the iteration is overwritten")
}

func variable(v ssa.Value) *ssa.Alloc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		al, _ := u.X.(*ssa.Alloc)
		return al
	}
	return nil
}

func isLoadOf(v ssa.Value, al *ssa.Alloc) bool { return variable(v) == al }

func (it *iteration) loads(v ssa.Value, al *ssa.Alloc) bool {
	if isLoadOf(v, al) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !it.inside(v) {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && it.loads(*op, al) {
			return true
		}
	}
	return false
}

func commutes(b *ssa.BinOp) bool {
	bt, ok := b.Type().Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return bt.Info()&(types.IsInteger|types.IsBoolean) != 0
	case token.SUB:
		return false
	}
	return false
}

// carried: a variable that goes from one iteration to the next.
func (it *iteration) carried(p *ssa.Phi) {
	// the values it can have at the end of an iteration
	var ends []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok && ph != p && it.inside(ph) {
			for _, e := range ph.Edges {
				walk(e)
			}
			return
		}
		ends = append(ends, v)
	}
	for i, e := range p.Edges {
		if it.l.blocks[p.Block().Preds[i]] {
			walk(e)
		}
	}
	consts := map[string]bool{}
	list, sum := false, false
	var base ssa.Value = p
	var appended []ssa.Value
	for _, v := range ends {
		if v == base {
			continue
		}
		if k, ok := v.(*ssa.Const); ok {
			consts[k.String()] = true
			continue
		}
		if !it.inside(v) {
			consts["fixed:"+v.Name()] = true
			continue
		}
		if it.sum(v, base, token.ILLEGAL, map[ssa.Value]bool{}) {
			sum = true
			continue
		}
		if call, ok := v.(*ssa.Call); ok {
			if bi, ok := call.Common().Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					if call.Common().Args[0] == base && !it.usesAny(call.Common().Args[1:], base) {
						list = true
						appended = append(appended, v)
						continue
					}
				case "min", "max":
					sum = true
					continue
				}
			}
		}
		if it.extreme(p, v) {
			sum = true
			continue
		}
		it.bad(p, "the variable %s depends on the entries before", p.Comment)
		return
	}
	if len(consts) > 1 || len(consts) > 0 && (list || sum) {
		it.bad(p, "the variable %s depends on the entries before", p.Comment)
		return
	}
	if len(consts) > 0 || list || sum {
		// the value of a moment may decide nothing but itself
		for _, r := range hpUses(p) {
			if !it.l.blocks[r.Block()] {
				continue
			}
			switch x := r.(type) {
			case *ssa.Phi:
				continue
			case *ssa.BinOp:
				if sum && commutes(x) || sum && it.isExtreme(p, ends) && it.compares(p, x) {
					continue
				}
			case *ssa.Call:
				if list && len(appended) > 0 && x.Common().Args != nil && len(x.Common().Args) > 0 && x.Common().Args[0] == ssa.Value(p) {
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						continue
					}
				}
			case *ssa.IndexAddr:
				if sum && x.Index == ssa.Value(p) {
					continue // the slot of a list, judged where it is stored
				}
			}
			if len(consts) > 0 {
				// a flag: looking at it makes entries treated differently
				if _, isIf := r.(*ssa.If); isIf {
					it.bad(r, "entries before decide about the entry (%s)", p.Comment)
					return
				}
			}
			it.bad(r, "the entries before decide about the entry (%s)", p.Comment)
			return
		}
	}
	if list {
		it.d.sortedPhi(it, p)
	}
}

// sum: the value so far with something added (multiplied, joined) to it, always by the same operation.
func (it *iteration) sum(v, base ssa.Value, op token.Token, seen map[ssa.Value]bool) bool {
	if v == base || seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		if !commutes(x) || op != token.ILLEGAL && op != x.Op {
			return false
		}
		if !it.uses(x.Y, base) {
			return it.sum(x.X, base, x.Op, seen)
		}
		if !it.uses(x.X, base) {
			return it.sum(x.Y, base, x.Op, seen)
		}
	case *ssa.Phi:
		if !it.inside(x) || x.Block() == it.l.header {
			return false
		}
		for _, e := range x.Edges {
			if !it.sum(e, base, op, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// sameValue: the same expression, possibly computed twice.
func sameValue(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth == 0 {
		return false
	}
	if x, ok := a.(*ssa.Const); ok {
		y, ok := b.(*ssa.Const)
		return ok && x.String() == y.String()
	}
	ca, ok := a.(*ssa.Call)
	if !ok {
		return false
	}
	cb, ok := b.(*ssa.Call)
	if !ok || len(ca.Common().Args) != len(cb.Common().Args) {
		return false
	}
	na, _ := callName(ca)
	nb, _ := callName(cb)
	if ba, isB := ca.Common().Value.(*ssa.Builtin); isB {
		bb, ok := cb.Common().Value.(*ssa.Builtin)
		if !ok || ba.Name() != "len" || bb.Name() != "len" {
			return false
		}
	} else if na != nb || !pureLib(na) {
		return false
	}
	for i := range ca.Common().Args {
		if !sameValue(ca.Common().Args[i], cb.Common().Args[i], depth-1) {
			return false
		}
	}
	return true
}

func (it *iteration) uses(v, base ssa.Value) bool {
	if v == base {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !it.inside(v) {
		return false
	}
	if ph, ok := v.(*ssa.Phi); ok && ph.Block() == it.l.header {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && it.uses(*op, base) {
			return true
		}
	}
	return false
}

func (it *iteration) usesAny(vs []ssa.Value, base ssa.Value) bool {
	for _, v := range vs {
		if it.uses(v, base) {
			return true
		}
	}
	return false
}

func (it *iteration) compares(p *ssa.Phi, b *ssa.BinOp) bool {
	switch b.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return true
	}
	return false
}

func (it *iteration) isExtreme(p *ssa.Phi, ends []ssa.Value) bool {
	for _, v := range ends {
		if v != ssa.Value(p) && !it.extreme(p, v) {
			return false
		}
	}
	return true
}

// extreme: the least or greatest value so far (if v < p { p = v }).
func (it *iteration) extreme(p *ssa.Phi, v ssa.Value) bool {
	bt, ok := p.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsOrdered == 0 {
		return false
	}
	for _, r := range *p.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok || !it.compares(p, b) || !sameValue(b.X, v, 3) && !sameValue(b.Y, v, 3) {
			continue
		}
		return true
	}
	return false
}

func (it *iteration) call(x *ssa.Call) {
	d := it.d
	com := x.Common()
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			// judged where its result goes
			if it.own(com.Args[0], map[ssa.Value]bool{}) {
				return
			}
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Phi, *ssa.DebugRef, *ssa.MapUpdate:
				case *ssa.Store:
				default:
					_ = y
					if !it.l.blocks[r.Block()] {
						it.bad(x, "a list is filled")
					}
				}
			}
		case "delete":
			if !it.key[com.Args[1]] && !it.fixed(com.Args[1]) && !it.own(com.Args[0], map[ssa.Value]bool{}) {
				it.bad(x, "another entry than that of the iteration is deleted")
			}
		case "copy":
			if !it.own(com.Args[0], map[ssa.Value]bool{}) {
				it.bad(x, "something that lives longer than the iteration is overwritten")
			}
		}
		return
	}
	if d.effectFree(x) {
		return
	}
	// effects on the entry's own value only
	n, f := callName(x)
	if f != nil && d.P.inRepo(f) {
		own := true
		for _, a := range com.Args {
			if ptrish(a.Type()) && !it.own(a, map[ssa.Value]bool{}) {
				own = false
			}
		}
		if own && d.onlyArgs(f, map[*ssa.Function]bool{}) {
			return
		}
	} else if len(com.Args) > 0 && it.own(com.Args[0], map[ssa.Value]bool{}) {
		return
	}
	if n == "" {
		n = "a function that is not known"
	}
	it.bad(x, "%s is called, which has an effect", n)
}

// effectFree: calls that change nothing.
func (d *determinism) effectFree(x ssa.CallInstruction) bool {
	n, f := callName(x)
	n = generic(n)
	if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete", "copy", "close", "clear":
			return false
		}
		return true
	}
	if n == "" {
		return x.Common().IsInvoke() && x.Common().Method.Name() == "Error"
	}
	if pureLib(n) || isLogCall(n) || nondeterministic(n) != "" || n == "cmp.Equal" || strings.HasPrefix(n, "sort.Search") || n == "errors.New" {
		return true
	}
	if !strings.HasPrefix(n, "fmt.") && readOnlyLib(n) && !strings.HasPrefix(n, "(*os.File)") && n != "io.WriteString" && n != "(*yaml.Encoder).Encode" {
		return true
	}
	if f == nil || !d.P.inRepo(f) || f.Blocks == nil {
		return false
	}
	if d.pure == nil {
		d.pure = map[*ssa.Function]tri{}
	}
	switch d.pure[f] {
	case Y:
		return true
	case N:
		return false
	}
	d.pure[f] = Y // recursion
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				ok = ok && localRoot(y.Addr, map[ssa.Value]bool{})
			case *ssa.MapUpdate:
				ok = ok && localRoot(y.Map, map[ssa.Value]bool{})
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				ok = false
			case *ssa.Call:
				ok = ok && (d.effectFree(y) || len(y.Common().Args) > 0 && !d.P.inRepo(calleeOf(y)) && localRoot(y.Common().Args[0], map[ssa.Value]bool{}))
			}
		}
	}
	if ok {
		d.pure[f] = Y
	} else {
		d.pure[f] = N
	}
	return ok
}

func calleeOf(x ssa.CallInstruction) *ssa.Function { return x.Common().StaticCallee() }

// onlyArgs: the function changes nothing but objects of its own and of its arguments.
func (d *determinism) onlyArgs(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if rootIsGlobal(y.Addr) {
					return false
				}
			case *ssa.MapUpdate:
				if rootIsGlobal(y.Map) {
					return false
				}
			case *ssa.Send, *ssa.Go, *ssa.Select:
				return false
			case ssa.CallInstruction:
				if d.effectFree(y) {
					continue
				}
				g := calleeOf(y)
				if g == nil || !d.P.inRepo(g) || !d.onlyArgs(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

func rootIsGlobal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Global, *ssa.FreeVar:
			return true
		default:
			return false
		}
	}
}

// localRoot: an object the function made itself.
func localRoot(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return localRoot(x.X, seen)
	case *ssa.IndexAddr:
		return localRoot(x.X, seen)
	case *ssa.Slice:
		return localRoot(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !localRoot(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			if k, ok := x.Common().Args[0].(*ssa.Const); ok && k.IsNil() {
				return true
			}
			return localRoot(x.Common().Args[0], seen)
		}
	case *ssa.Const:
		return true
	}
	return false
}

// ---- sorted before use

// sortCall: the instruction sorts v (or a list that is v in another guise).
func sortCall(in ssa.Instruction, is func(ssa.Value) bool) bool {
	n, _ := callName(in)
	if !sorts(generic(n)) {
		return false
	}
	a := in.(ssa.CallInstruction).Common().Args[0]
	for {
		if is(a) {
			return true
		}
		switch x := a.(type) {
		case *ssa.MakeInterface:
			a = x.X
			continue
		case *ssa.ChangeType:
			a = x.X
			continue
		case *ssa.Convert:
			a = x.X
			continue
		}
		return false
	}
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// judgeSorted: every use is the sorting, comes after it, or does not look at the order.
func (d *determinism) judgeSorted(uses []ssa.Instruction, is func(ssa.Value) bool, inside func(ssa.Instruction) bool) ssa.Instruction {
	var sorted []ssa.Instruction
	var sites []ssa.Instruction
	for _, u := range uses {
		sites = append(sites, u)
		// conversions on the way to the sorting
		if v, ok := u.(ssa.Value); ok {
			switch u.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
				if v.Referrers() != nil {
					sites = append(sites, *v.Referrers()...)
				}
			}
		}
	}
	for _, u := range sites {
		if sortCall(u, is) {
			sorted = append(sorted, u)
		}
	}
	for _, u := range uses {
		if inside(u) {
			continue
		}
		ok := false
		switch x := u.(type) {
		case *ssa.DebugRef:
			ok = true
		case *ssa.Call:
			if bi, isB := x.Common().Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
				ok = true
			}
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert:
			ok = true
			for _, r := range *u.(ssa.Value).Referrers() {
				o := sortCall(r, is)
				for _, s := range sorted {
					o = o || dominatesInstr(s, r)
				}
				ok = ok && o
			}
		case *ssa.BinOp:
			ok = x.Op == token.EQL || x.Op == token.NEQ
		}
		for _, s := range sorted {
			ok = ok || s == u || dominatesInstr(s, u)
		}
		if !ok {
			return u
		}
	}
	return nil
}

func (d *determinism) sortedPhi(it *iteration, p *ssa.Phi) {
	w := d.judgeSorted(hpUses(p), func(v ssa.Value) bool { return v == ssa.Value(p) }, func(u ssa.Instruction) bool { return it.l.blocks[u.Block()] })
	if w != nil {
		it.bad(w, "a list filled from a map is used without having been sorted")
	}
}

func (d *determinism) sortedAfter(it *iteration, v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	return d.judgeSorted(*v.Referrers(), func(x ssa.Value) bool { return x == v }, func(u ssa.Instruction) bool {
		return it.l.blocks[u.Block()]
	}) == nil
}

func (d *determinism) sortedVar(it *iteration, al *ssa.Alloc, at ssa.Instruction) {
	var uses []ssa.Instruction
	loads := map[ssa.Value]bool{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			loads[x] = true
			uses = append(uses, *x.Referrers()...)
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// the order given to the sorting reads the list
			for _, s := range *x.Referrers() {
				if n, _ := callName(s); !sorts(generic(n)) {
					uses = append(uses, s)
				}
			}
		default:
			uses = append(uses, r)
		}
	}
	w := d.judgeSorted(uses, func(v ssa.Value) bool { return loads[v] }, func(u ssa.Instruction) bool { return it.l.blocks[u.Block()] })
	if w != nil {
		it.bad(w, "a list filled from a map is used without having been sorted")
	}
}

func (d *determinism) sortedFirst(x ssa.CallInstruction, v ssa.Value) {
	vals := []ssa.Value{v}
	if _, ok := v.Type().(*types.Tuple); ok {
		vals = nil
		for _, r := range *v.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 {
				vals = append(vals, ex)
			}
		}
	}
	for _, v := range vals {
		v := v
		if w := d.judgeSorted(*v.Referrers(), func(y ssa.Value) bool { return y == v }, func(ssa.Instruction) bool { return false }); w != nil {
			n, _ := callName(x)
			d.bad(x, "order", "what %s lists has no order and is used unsorted at %s", n, d.P.ipos(w))
		}
	}
}

// ---- channels

func (d *determinism) choice(x *ssa.Select) {
	d.c.oblig++
	if len(x.States) > 1 {
		d.bad(x, "select", "one of several channels that are ready is chosen, which can be any of them")
		return
	}
	if !x.Blocking && len(x.States) == 1 && !d.confined(x.States[0].Chan) {
		d.bad(x, "select", "whether a channel that goroutines share is ready decides something")
	}
}

// confined: a channel of an object that no goroutine was given.
func (d *determinism) confined(ch ssa.Value) bool {
	var owner types.Type
	var root ssa.Value
	switch x := ch.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			owner = deref(fa.X.Type())
		} else {
			root = x.X
		}
	case *ssa.MakeChan:
		root = x
	case *ssa.Field:
		owner = x.X.Type()
	}
	if root != nil {
		for _, r := range *root.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Val == root {
					return false
				}
			case *ssa.Send, *ssa.Select, *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Call:
				if _, ok := y.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if owner == nil {
		return false
	}
	// no goroutine is given something from which such an object can be reached
	for _, f := range d.P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var vals []ssa.Value
				switch x := in.(type) {
				case *ssa.Go:
					vals = append(vals, x.Common().Args...)
					vals = append(vals, x.Common().Value)
				case *ssa.Call:
					n, _ := callName(x)
					if !isSpawnCall(n) {
						continue
					}
					vals = append(vals, x.Common().Args[1])
				default:
					continue
				}
				for _, v := range vals {
					if mc, ok := v.(*ssa.MakeClosure); ok {
						for _, bd := range mc.Bindings {
							if holds(bd.Type(), owner, map[types.Type]bool{}) {
								return false
							}
						}
						continue
					}
					if holds(v.Type(), owner, map[types.Type]bool{}) {
						return false
					}
				}
			}
		}
	}
	for _, p := range d.P.prog.AllPackages() {
		if p.Pkg.Path() != modPath && !strings.HasPrefix(p.Pkg.Path(), modPath+"/") {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && holds(g.Type(), owner, map[types.Type]bool{}) {
				return false
			}
		}
	}
	return true
}

// holds: an object of type want can be reached from one of type t.
func holds(t, want types.Type, seen map[types.Type]bool) bool {
	if types.Identical(t, want) {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return holds(x.Elem(), want, seen)
	case *types.Slice:
		return holds(x.Elem(), want, seen)
	case *types.Array:
		return holds(x.Elem(), want, seen)
	case *types.Chan:
		return holds(x.Elem(), want, seen)
	case *types.Map:
		return holds(x.Key(), want, seen) || holds(x.Elem(), want, seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holds(x.Field(i).Type(), want, seen) {
				return true
			}
		}
	}
	return false
}

// shared: what the goroutines of the files send to others.
func (d *determinism) shared() {
	a := d.c.workerAlias()
	if a == nil {
		return
	}
	for _, k := range a.nodes {
		for _, b := range k.fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Send)
				if !ok {
					continue
				}
				d.c.oblig++
				ch := s.Chan.Type().Underlying().(*types.Chan)
				if signal(ch.Elem()) {
					continue
				}
				for p := range a.get(k, s.Chan) {
					if p.o.region == rgShared || p.o.region == rgGlobal {
						d.bad(in, "arrival", "the goroutine of a file sends into a channel shared with those of other files: values arrive in any order")
						break
					}
				}
			}
		}
	}
	d.c.least("goroutines or applications analysed", len(a.nodes), 10)
}

// scheduling: what the rules on the run as a whole find that lets the schedule decide.
func (d *determinism) scheduling() {
	var done []*Check
	for _, id := range []string{"C04", "C10"} {
		run := newCheck(d.P, id)
		ruleRun(run)
		done = append(done, run)
		for _, f := range run.findings {
			switch strings.SplitN(f.key, "|", 2)[0] {
			case "nested-worker", "output-goroutine", "queued-by-worker", "output-early", "output-before-wait", "order", "not-all-output", "output-file":
				d.c.Must(false, f.key, f.pos, "%s", f.msg)
			}
		}
	}
	sh := newCheck(d.P, "C01")
	ruleShared(sh)
	for _, f := range sh.findings {
		switch strings.SplitN(f.key, "|", 2)[0] {
		case "instances", "spawn":
			continue
		}
		d.c.Must(false, f.key, f.pos, "%s", f.msg)
	}
	for _, x := range append(done, sh) {
		for s := range x.sites {
			d.c.sites[s] = true
		}
		d.c.oblig += x.oblig
		d.c.states += x.states
		d.c.paths += x.paths
		for f := range x.fns {
			d.c.fns[f] = true
		}
	}
}

func signal(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return true
	}
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsBoolean != 0
}
