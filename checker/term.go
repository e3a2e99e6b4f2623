package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are hash-consed value numbers. Two SSA values (of any function or
// inlining context) that are represented by the same *Term hold the same value
// on the analysed path.

type Op uint8

const (
	OConst   Op = iota // constant (cv) or nil (cv==nil, s=="nil") or zero struct (s=="zero")
	OParam             // root parameter / free variable
	OGlobal            // address of a package level variable
	OFn                // function value
	OAlloc             // address of a local/heap allocation, make(map), make(chan), make(slice)
	OFA                // address of field s of *args[0]
	OEA                // address of element args[1] of slice / array pointer args[0]
	OME                // address of the entry args[1] of map args[0]
	OLD                // initial value stored at address args[0] (version n)
	OField             // field s of struct value args[0]
	OStruct            // struct value args[0] with fields overridden (s = names joined, args[1:])
	OSlice             // args[0][args[1]:args[2]] (nil bound = absent)
	OCat               // concatenation of slices (parts are slice values or OElems)
	OElems             // literal list of elements
	OLen               // len(slice/map/chan)
	OAff               // sum coef*atom + n
	OBin               // uninterpreted binary/unary operator s
	OEq                // args[0] == args[1]
	OLe                // args[0] <= n (args[0] integer atom or OAff without constant, leading coef > 0)
	ONot               //
	OCall              // result of a function without side effects, structural
	OSite              // result of a call/receive/... identified by its site and context (n = result index)
	OIter              // number of completed iterations of a loop
	OItAll             // stands for every already completed iteration of a loop
	OPhi               // unknown loop carried value
	OMPhi              // unknown loop carried memory contents
	OClosure           // closure s with bindings
	OIface             // interface holding args[0] of type s
	OTuple             //
	OExt               // component n of tuple args[0]
	OConcat            // string concatenation
	ORemove            // args[0] without elements [args[1], args[2])
	ODeep              // deep copy of args[0]
)

type Term struct {
	id   int
	op   Op
	s    string
	n    int64
	args []*Term
	cf   []int64 // OAff coefficients
	cv   constant.Value
	typ  types.Type
	site ssa.Instruction
	ctx  *Ctx
	fn   *ssa.Function
	loop *Loop
	gen  []*Term // generative leaves (sorted by id)
}

// Ctx is an inlining context (call string).
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

type Terms struct {
	tab  map[string]*Term
	all  []*Term
	ctxs map[string]*Ctx
	sids map[ssa.Instruction]int
	lids map[*Loop]int
}

var T = &Terms{tab: map[string]*Term{}, ctxs: map[string]*Ctx{}, sids: map[ssa.Instruction]int{}, lids: map[*Loop]int{}}

func (T *Terms) sid(i ssa.Instruction) int {
	if i == nil {
		return 0
	}
	if n, ok := T.sids[i]; ok {
		return n
	}
	n := len(T.sids) + 1
	T.sids[i] = n
	return n
}

func (T *Terms) Ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	p := 0
	if parent != nil {
		p = parent.id
	}
	k := fmt.Sprintf("%d/%d/%p", p, T.sid(call), fn)
	if c, ok := T.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(T.ctxs) + 1, parent: parent, call: call, fn: fn}
	T.ctxs[k] = c
	return c
}

func (T *Terms) mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op) + 'A')
	sb.WriteString(t.s)
	sb.WriteByte(0)
	if t.n != 0 {
		sb.WriteString(strconv.FormatInt(t.n, 10))
	}
	sb.WriteByte(0)
	for i, a := range t.args {
		if a == nil {
			sb.WriteString("_,")
			continue
		}
		sb.WriteString(strconv.Itoa(a.id))
		if t.op == OAff {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(t.cf[i], 10))
		}
		sb.WriteByte(',')
	}
	if t.site != nil || t.ctx != nil {
		c := 0
		if t.ctx != nil {
			c = t.ctx.id
		}
		fmt.Fprintf(&sb, "@%d.%d", T.sid(t.site), c)
	}
	if t.loop != nil {
		if _, ok := T.lids[t.loop]; !ok {
			T.lids[t.loop] = len(T.lids) + 1
		}
		fmt.Fprintf(&sb, "L%d", T.lids[t.loop])
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "F%p", t.fn)
	}
	k := sb.String()
	if r, ok := T.tab[k]; ok {
		return r
	}
	r := new(Term)
	*r = t
	r.id = len(T.all) + 1
	T.all = append(T.all, r)
	T.tab[k] = r
	// generative leaves
	switch t.op {
	case OAlloc, OSite, OIter, OItAll, OPhi, OMPhi:
		r.gen = append(r.gen, r)
	}
	seen := map[*Term]bool{}
	for _, g := range r.gen {
		seen[g] = true
	}
	for _, a := range t.args {
		if a == nil {
			continue
		}
		for _, g := range a.gen {
			if !seen[g] {
				seen[g] = true
				r.gen = append(r.gen, g)
			}
		}
	}
	sort.Slice(r.gen, func(i, j int) bool { return r.gen[i].id < r.gen[j].id })
	return r
}

func Const(v constant.Value) *Term {
	return T.mk(Term{op: OConst, s: v.Kind().String() + v.ExactString(), cv: v})
}
func Int(n int64) *Term  { return Const(constant.MakeInt64(n)) }
func Str(s string) *Term { return Const(constant.MakeString(s)) }
func Bool(b bool) *Term  { return Const(constant.MakeBool(b)) }
func Nil() *Term         { return T.mk(Term{op: OConst, s: "nil"}) }
func ZeroStruct() *Term  { return T.mk(Term{op: OConst, s: "zero"}) }
func Param(n string, ty types.Type) *Term {
	return T.mk(Term{op: OParam, s: n, typ: ty})
}

func (t *Term) isNil() bool   { return t.op == OConst && t.s == "nil" }
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt() (int64, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.cv)
		return n, ok
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) isBool() (bool, bool) {
	if t.op == OConst && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

// zeroOf is the zero value of a type.
func zeroOf(ty types.Type) *Term {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsNumeric != 0:
			return Int(0)
		}
		return Nil()
	case *types.Struct, *types.Array:
		return ZeroStruct()
	}
	return Nil()
}

// ---- addresses and loads

func FA(base *Term, f string) *Term { return T.mk(Term{op: OFA, s: f, args: []*Term{base}}) }

func EA(base, idx *Term) *Term {
	for base.op == OSlice && base.args[0] != nil {
		if lo := base.args[1]; lo != nil {
			idx = Add(idx, lo, 1)
		}
		base = base.args[0]
	}
	return T.mk(Term{op: OEA, args: []*Term{base, idx}})
}

func ME(m, k *Term) *Term { return T.mk(Term{op: OME, args: []*Term{m, k}}) }

func LD(addr *Term, ver int64) *Term { return T.mk(Term{op: OLD, args: []*Term{addr}, n: ver}) }

// Fld is the initial value of field f of the struct p points to.
func Fld(p *Term, f string) *Term { return LD(FA(p, f), 0) }

// El is the initial value of element i of slice s.
func El(s, i *Term) *Term { return LD(EA(s, i), 0) }

func FieldOf(v *Term, f string, ft types.Type) *Term {
	switch v.op {
	case OLD:
		return LD(FA(v.args[0], f), v.n)
	case OStruct:
		names := strings.Split(v.s, ",")
		for i, n := range names {
			if n == f {
				return v.args[i+1]
			}
		}
		return FieldOf(v.args[0], f, ft)
	case ODeep:
		// copies of values without references are the values
		if ft != nil {
			if _, ok := ft.Underlying().(*types.Basic); ok {
				return FieldOf(v.args[0], f, ft)
			}
		}
	case OConst:
		if ft != nil {
			return zeroOf(ft)
		}
	}
	return T.mk(Term{op: OField, s: f, args: []*Term{v}})
}

func StructOf(base *Term, fields map[string]*Term) *Term {
	if base.op == OStruct {
		m := map[string]*Term{}
		for i, n := range strings.Split(base.s, ",") {
			m[n] = base.args[i+1]
		}
		for k, v := range fields {
			m[k] = v
		}
		fields = m
		base = base.args[0]
	}
	var names []string
	for k, v := range fields {
		if v == FieldOf(base, k, nil) {
			continue
		}
		names = append(names, k)
	}
	if len(names) == 0 {
		return base
	}
	sort.Strings(names)
	args := []*Term{base}
	for _, n := range names {
		args = append(args, fields[n])
	}
	return T.mk(Term{op: OStruct, s: strings.Join(names, ","), args: args})
}

// ---- lists

func Elems(e ...*Term) *Term { return T.mk(Term{op: OElems, args: e}) }

func Cat(parts ...*Term) *Term {
	var out []*Term
	var flat func(p *Term)
	flat = func(p *Term) {
		switch {
		case p.op == OCat:
			for _, q := range p.args {
				flat(q)
			}
		case p.isNil():
		case p.op == OElems && len(p.args) == 0:
		case p.op == OElems && len(out) > 0 && out[len(out)-1].op == OElems:
			l := out[len(out)-1]
			out[len(out)-1] = Elems(append(append([]*Term{}, l.args...), p.args...)...)
		default:
			// x[:a] + x[b:]  ==> remove
			if len(out) > 0 && p.op == OSlice && out[len(out)-1].op == OSlice {
				a, b := out[len(out)-1], p
				if a.args[0] == b.args[0] && a.args[1] == nil && a.args[2] != nil && b.args[1] != nil && b.args[2] == nil {
					out[len(out)-1] = Remove(a.args[0], a.args[2], b.args[1])
					return
				}
			}
			out = append(out, p)
		}
	}
	for _, p := range parts {
		flat(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return Elems()
	}
	return T.mk(Term{op: OCat, args: out})
}

func Remove(x, a, b *Term) *Term {
	if a == b {
		return x
	}
	return T.mk(Term{op: ORemove, args: []*Term{x, a, b}})
}

func SliceT(x, lo, hi *Term) *Term {
	if lo != nil {
		if n, ok := lo.isInt(); ok && n == 0 {
			lo = nil
		}
	}
	if hi != nil && hi == LenOf(x) {
		hi = nil
	}
	if lo == nil && hi == nil {
		return x
	}
	if x.op == OSlice {
		// (x[a:b])[lo:hi] = x[a+lo : a+hi]
		a, b := x.args[1], x.args[2]
		nlo, nhi := lo, hi
		if a != nil {
			if lo != nil {
				nlo = Add(a, lo, 1)
			} else {
				nlo = a
			}
			if hi != nil {
				nhi = Add(a, hi, 1)
			}
		}
		if nhi == nil {
			nhi = b
		}
		return SliceT(x.args[0], nlo, nhi)
	}
	if x.op == OElems {
		l, h := int64(0), int64(len(x.args))
		ok := true
		if lo != nil {
			l, ok = lo.isInt()
		}
		if ok && hi != nil {
			h, ok = hi.isInt()
		}
		if ok && l <= h && h <= int64(len(x.args)) && l >= 0 {
			return Elems(x.args[l:h]...)
		}
	}
	if x.isNil() {
		return x
	}
	return T.mk(Term{op: OSlice, args: []*Term{x, lo, hi}})
}

func LenOf(x *Term) *Term {
	switch x.op {
	case OElems:
		return Int(int64(len(x.args)))
	case OCat:
		r := Int(0)
		for _, p := range x.args {
			r = Add(r, LenOf(p), 1)
		}
		return r
	case OSlice:
		var hi *Term
		if x.args[2] != nil {
			hi = x.args[2]
		} else {
			hi = LenOf(x.args[0])
		}
		if x.args[1] != nil {
			return Add(hi, x.args[1], -1)
		}
		return hi
	case ORemove:
		return Add(Add(LenOf(x.args[0]), x.args[1], 1), x.args[2], -1)
	case OConst:
		if x.isNil() {
			return Int(0)
		}
		if s, ok := x.isStr(); ok {
			return Int(int64(len(s)))
		}
	case OAlloc:
		if strings.HasPrefix(x.s, "array") {
			return Int(x.n)
		}
		if x.s == "slice" && len(x.args) == 1 {
			return x.args[0]
		}
	case ODeep:
		return LenOf(x.args[0])
	}
	return T.mk(Term{op: OLen, args: []*Term{x}})
}

func Deep(x *Term) *Term {
	if x.isConst() {
		return x
	}
	return T.mk(Term{op: ODeep, args: []*Term{x}})
}

// ---- integers

func linear(t *Term) (atoms []*Term, cf []int64, c int64) {
	if n, ok := t.isInt(); ok {
		return nil, nil, n
	}
	if t.op == OAff {
		return t.args, t.cf, t.n
	}
	return []*Term{t}, []int64{1}, 0
}

func mkAff(m map[*Term]int64, c int64) *Term {
	var at []*Term
	for a, k := range m {
		if k != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return Int(c)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && m[at[0]] == 1 && c == 0 {
		return at[0]
	}
	cf := make([]int64, len(at))
	for i, a := range at {
		cf[i] = m[a]
	}
	return T.mk(Term{op: OAff, args: at, cf: cf, n: c})
}

// Add is a + k*b.
func Add(a, b *Term, k int64) *Term {
	m := map[*Term]int64{}
	aa, ac, c := linear(a)
	for i, x := range aa {
		m[x] += ac[i]
	}
	ba, bc, d := linear(b)
	for i, x := range ba {
		m[x] += k * bc[i]
	}
	return mkAff(m, c+k*d)
}

func AddN(a *Term, n int64) *Term { return Add(a, Int(n), 1) }

// Le0 is the atom t <= 0.
func Le0(t *Term) *Term {
	at, cf, c := linear(t)
	if len(at) == 0 {
		return Bool(c <= 0)
	}
	// strip the gcd
	g := int64(0)
	for _, k := range cf {
		g = gcd(g, abs(k))
	}
	m := map[*Term]int64{}
	for i, a := range at {
		m[a] = cf[i] / g
	}
	// sum <= -c/g  (floor)
	bound := floorDiv(-c, g)
	lead := m[at[0]]
	if lead < 0 {
		// -L <= bound  <=> L >= -bound <=> not (L <= -bound-1)
		for a := range m {
			m[a] = -m[a]
		}
		return Not(T.mk(Term{op: OLe, args: []*Term{mkAff(m, 0)}, n: -bound - 1}))
	}
	return T.mk(Term{op: OLe, args: []*Term{mkAff(m, 0)}, n: bound})
}

// Lt is a < b on integers, Leq is a <= b.
func Lt(a, b *Term) *Term  { return Le0(AddN(Add(a, b, -1), 1)) }
func Leq(a, b *Term) *Term { return Le0(Add(a, b, -1)) }

func EqInt(a, b *Term) *Term {
	d := Add(a, b, -1)
	at, cf, c := linear(d)
	if len(at) == 0 {
		return Bool(c == 0)
	}
	g := int64(0)
	for _, k := range cf {
		g = gcd(g, abs(k))
	}
	if c%g != 0 {
		return Bool(false)
	}
	if cf[0] < 0 {
		g = -g
	}
	m := map[*Term]int64{}
	for i, a := range at {
		m[a] = cf[i] / g
	}
	l := mkAff(m, 0)
	if l.op == OBin && l.s == "%2" && -c/g == 1 {
		return Not(EqInt(l, Int(0)))
	}
	return T.mk(Term{op: OEq, s: "i", args: []*Term{l, Int(-c / g)}})
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// ---- booleans

func Not(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return Bool(!b)
	}
	if t.op == ONot {
		return t.args[0]
	}
	return T.mk(Term{op: ONot, args: []*Term{t}})
}

// nonNil terms can never be nil.
func nonNil(t *Term) bool {
	switch t.op {
	case OAlloc, OFA, OEA, OClosure, OFn, OGlobal:
		return true
	case OIface:
		return true
	case OElems:
		return len(t.args) > 0
	case OCat:
		for _, p := range t.args {
			if nonNil(p) {
				return true
			}
		}
	case OCall:
		return t.s == "fmt.Errorf" || t.s == "errors.New"
	case OConst:
		return !t.isNil()
	case OLD:
		g := t.args[0]
		return g.op == OGlobal && t.n == 0 && g.typ != nil && isErrorType(deref(g.typ))
	case ODeep:
		return nonNil(t.args[0])
	case OSlice:
		return nonNil(t.args[0])
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	// comparisons look through interfaces of the same dynamic type
	if a.op == OIface && b.op == OIface {
		if a.s != b.s {
			return Bool(false)
		}
		return Eq(a.args[0], b.args[0])
	}
	if a.isConst() && b.isConst() {
		if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			return Bool(constant.Compare(a.cv, token.EQL, b.cv))
		}
		return Bool(a == b)
	}
	if (a.isNil() && nonNil(b)) || (b.isNil() && nonNil(a)) {
		return Bool(false)
	}
	if a.op == OAlloc && b.op == OAlloc {
		return Bool(false)
	}
	if v, ok := b.isBool(); ok {
		if v {
			return a
		}
		return Not(a)
	}
	if v, ok := a.isBool(); ok {
		if v {
			return b
		}
		return Not(b)
	}
	if _, ok := a.isInt(); ok {
		return EqInt(a, b)
	}
	if _, ok := b.isInt(); ok {
		return EqInt(a, b)
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	return T.mk(Term{op: OEq, args: []*Term{a, b}})
}

func Concat(parts ...*Term) *Term {
	var out []*Term
	var flat func(p *Term)
	flat = func(p *Term) {
		if p.op == OConcat {
			for _, q := range p.args {
				flat(q)
			}
			return
		}
		if s, ok := p.isStr(); ok {
			if s == "" {
				return
			}
			if len(out) > 0 {
				if q, ok := out[len(out)-1].isStr(); ok {
					out[len(out)-1] = Str(q + s)
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		flat(p)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return T.mk(Term{op: OConcat, args: out})
}

func Bin(op string, a, b *Term) *Term {
	if b == nil {
		return T.mk(Term{op: OBin, s: op, args: []*Term{a}})
	}
	switch op {
	case "|":
		// associative, commutative, idempotent
		set := map[*Term]bool{}
		var c int64
		var flat func(t *Term)
		flat = func(t *Term) {
			if t.op == OBin && t.s == "|" {
				for _, x := range t.args {
					flat(x)
				}
				return
			}
			if n, ok := t.isInt(); ok {
				c |= n
				return
			}
			set[t] = true
		}
		flat(a)
		flat(b)
		if c != 0 {
			set[Int(c)] = true
		}
		var l []*Term
		for t := range set {
			l = append(l, t)
		}
		if len(l) == 0 {
			return Int(0)
		}
		if len(l) == 1 {
			return l[0]
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		return T.mk(Term{op: OBin, s: "|", args: l})
	case "%":
		if n, ok := b.isInt(); ok && n == 2 {
			return mod2(a)
		}
	case "&":
		if n, ok := b.isInt(); ok && n == 1 {
			return mod2(a)
		}
		if n, ok := a.isInt(); ok && n == 1 {
			return mod2(b)
		}
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			switch op {
			case "%":
				if y != 0 {
					return Int(x % y)
				}
			case "/":
				if y != 0 {
					return Int(x / y)
				}
			case "<<":
				return Int(x << uint(y))
			case ">>":
				return Int(x >> uint(y))
			case "&":
				return Int(x & y)
			case "^":
				return Int(x ^ y)
			case "&^":
				return Int(x &^ y)
			}
		}
	}
	return T.mk(Term{op: OBin, s: op, args: []*Term{a, b}})
}

// mod2 is the parity of a non negative integer: even multiples and offsets are dropped.
func mod2(a *Term) *Term {
	at, cf, c := linear(a)
	m := map[*Term]int64{}
	for i, x := range at {
		if cf[i]%2 != 0 {
			m[x] = 1
		}
	}
	odd := c%2 != 0
	if len(m) == 0 {
		if odd {
			return Int(1)
		}
		return Int(0)
	}
	l := T.mk(Term{op: OBin, s: "%2", args: []*Term{mkAff(m, 0)}})
	if odd {
		return Add(Int(1), l, -1)
	}
	return l
}

// WAdd and WSub are machine sums and differences, which may wrap around.
func WAdd(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(Term{op: OBin, s: "+w", args: []*Term{a, b}})
}
func WSub(a, b *Term) *Term { return T.mk(Term{op: OBin, s: "-w", args: []*Term{a, b}}) }

func huge(t *Term) bool {
	n, ok := t.isInt()
	return ok && (n > 1<<60 || n < -(1<<60))
}

func Call(name string, args ...*Term) *Term {
	return T.mk(Term{op: OCall, s: name, args: args})
}
func Ext(t *Term, n int64) *Term {
	if t.op == OTuple {
		return t.args[n]
	}
	return T.mk(Term{op: OExt, n: n, args: []*Term{t}})
}
func Tuple(a ...*Term) *Term { return T.mk(Term{op: OTuple, args: a}) }

// has reports whether sub occurs in t.
func (t *Term) has(sub *Term) bool {
	if t == sub {
		return true
	}
	if t.id < sub.id {
		return false
	}
	for _, a := range t.args {
		if a != nil && a.has(sub) {
			return true
		}
	}
	return false
}

func (t *Term) hasGen(f func(*Term) bool) bool {
	for _, g := range t.gen {
		if f(g) {
			return true
		}
	}
	return false
}

// any reports whether f holds for t or one of its subterms.
func (t *Term) any(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.args {
		if a != nil && a.any(f) {
			return true
		}
	}
	return false
}

// subst replaces from by to.
func (t *Term) subst(from, to *Term) *Term {
	if t == from {
		return to
	}
	if !t.has(from) {
		return t
	}
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		if a != nil {
			na[i] = a.subst(from, to)
		}
	}
	if t.op == OAff {
		r := Int(t.n)
		for i, a := range na {
			r = Add(r, a, t.cf[i])
		}
		return r
	}
	c := *t
	c.args = na
	c.gen = nil
	return T.mk(c)
}

func unwrap(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	switch t.op {
	case OConst:
		if t.cv == nil {
			return t.s
		}
		return t.cv.String()
	case OParam:
		return t.s
	case OGlobal:
		return t.s
	case OFn:
		return t.fn.Name()
	case OAlloc:
		return fmt.Sprintf("new%d", t.id)
	case OFA:
		return "&" + t.args[0].String() + "." + t.s
	case OEA:
		return "&" + t.args[0].String() + "[" + t.args[1].String() + "]"
	case OME:
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case OLD:
		s := strings.TrimPrefix(t.args[0].String(), "&")
		if t.args[0].op != OFA && t.args[0].op != OEA {
			s = "*" + s
		}
		if t.n != 0 {
			s += "'" + strconv.FormatInt(t.n, 10)
		}
		return s
	case OAff:
		var p []string
		for i, a := range t.args {
			switch t.cf[i] {
			case 1:
				p = append(p, a.String())
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.cf[i], a))
			}
		}
		if t.n != 0 {
			p = append(p, strconv.FormatInt(t.n, 10))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OEq:
		return t.args[0].String() + "==" + t.args[1].String()
	case OLe:
		return t.args[0].String() + "<=" + strconv.FormatInt(t.n, 10)
	case ONot:
		return "!(" + t.args[0].String() + ")"
	case OIter:
		return fmt.Sprintf("i%d", t.id)
	case OItAll:
		return fmt.Sprintf("all%d", t.id)
	case OPhi, OMPhi:
		return fmt.Sprintf("phi%d", t.id)
	case OSite:
		return fmt.Sprintf("%s#%d", t.s, t.id)
	case OIface:
		return t.args[0].String()
	case OLen:
		return "len(" + t.args[0].String() + ")"
	case OField:
		return t.args[0].String() + "." + t.s
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.String())
	}
	n := t.s
	switch t.op {
	case OCat:
		n = "cat"
	case OElems:
		n = "list"
	case OSlice:
		n = "slice"
	case OTuple:
		n = "tuple"
	case OExt:
		n = fmt.Sprintf("ext%d", t.n)
	case OConcat:
		n = "concat"
	case ORemove:
		n = "remove"
	case ODeep:
		n = "deepcopy"
	case OClosure:
		n = "closure " + t.fn.Name()
	case OStruct:
		n = "struct{" + t.s + "}"
	}
	return n + "(" + strings.Join(p, ",") + ")"
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

var errType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errType) }
