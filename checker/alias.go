package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- points-to analysis of the code that runs while files are processed concurrently
//
// Inclusion based, flow insensitive, field sensitive, with array elements at constant positions kept apart and
// functions analysed per call string (the last callDepth call sites). What exists before the workers are started is
// described by regions: everything reachable from an overlay (OVL), the documents of the worker's own file (DOC), the
// worker's own YamlFile (FILE), and everything else that is shared (SHARED, GLOBAL).

const callDepth = 2

const (
	rgDoc    = "the documents of the file"
	rgOvl    = "an overlay"
	rgFile   = "the file entry"
	rgShared = "data shared by all workers"
	rgGlobal = "a global variable"
)

type aobj struct {
	id     int
	region string // "" for objects allocated by workers
	deep   bool   // a tree of fresh objects, collapsed
	site   ssa.Instruction
	ctx    string
	fn     *ssa.Function // closures
	cells  map[string]aset
	typ    types.Type
	extra  aset // collapsed objects: pointers stored into it
	inits  []ssa.Value
}

func (o *aobj) collapsed() bool { return o.region != "" || o.deep }

func (o *aobj) String() string {
	if o.region != "" {
		return o.region
	}
	return fmt.Sprintf("obj%d", o.id)
}

type aptr struct {
	o    *aobj
	path string
	lo   int
	sv   bool // struct value copied from there
}

type aset map[aptr]bool

func (s aset) list() []aptr {
	out := make([]aptr, 0, len(s))
	for p := range s {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.id != out[j].o.id {
			return out[i].o.id < out[j].o.id
		}
		if out[i].path != out[j].path {
			return out[i].path < out[j].path
		}
		return out[i].lo < out[j].lo
	})
	return out
}

type akey struct {
	fn  *ssa.Function
	ctx string
}

type alias struct {
	P        *Program
	objs     []*aobj
	regions  map[string]*aobj
	byKey    map[string]*aobj
	byObj    map[okey]*aobj
	byCallee map[okey]string
	pm       map[[2]string][2]string
	env      map[akey]map[ssa.Value]aset
	rets     map[akey][]aset
	nodes    []akey
	seen     map[akey]bool
	changed  bool
	final    bool
	viol     func(kind string, in ssa.Instruction, k akey, what string)
	sid      map[ssa.Instruction]int
	stores   []astore
	ncalls   int
	nstores  int
	exts     map[string]bool
}

type astore struct {
	k   akey
	in  ssa.Instruction
	val ssa.Value
	dst aset
	src aset
	el  bool // element append
}

func newAlias(P *Program) *alias {
	a := &alias{P: P, regions: map[string]*aobj{}, byKey: map[string]*aobj{}, byObj: map[okey]*aobj{}, byCallee: map[okey]string{}, pm: map[[2]string][2]string{}, env: map[akey]map[ssa.Value]aset{}, rets: map[akey][]aset{}, seen: map[akey]bool{}, sid: map[ssa.Instruction]int{}, exts: map[string]bool{}}
	for _, r := range []string{rgDoc, rgOvl, rgFile, rgShared, rgGlobal} {
		o := a.newObj()
		o.region = r
		a.regions[r] = o
	}
	return a
}

func (a *alias) newObj() *aobj {
	o := &aobj{id: len(a.objs), cells: map[string]aset{}, extra: aset{}}
	a.objs = append(a.objs, o)
	return o
}

func (a *alias) siteID(in ssa.Instruction) int {
	if n, ok := a.sid[in]; ok {
		return n
	}
	a.sid[in] = len(a.sid) + 1
	return a.sid[in]
}

type okey struct {
	in    ssa.Instruction
	label string
	k     akey
}

func (a *alias) obj(k akey, in ssa.Instruction, label string) *aobj {
	key := okey{in, label, k}
	if o := a.byObj[key]; o != nil {
		return o
	}
	o := a.newObj()
	o.site, o.ctx = in, k.ctx
	a.byObj[key] = o
	return o
}

func (a *alias) region(r string) aset { return aset{aptr{o: a.regions[r]}: true} }

// ptrish: values that can lead to memory objects.
func ptrish(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := ptrMemo[t]; ok {
		return b
	}
	b := ptrishRec(t, 0)
	ptrMemo[t] = b
	return b
}

var ptrMemo = map[types.Type]bool{}

func ptrishRec(t types.Type, d int) bool {
	if t == nil || d > 6 {
		return false
	}
	if isErrorType(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrishRec(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return ptrishRec(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if ptrishRec(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func isStruct(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func typeName(t types.Type) string { return types.TypeString(t, short) }

// regionOfType: what an input value of the workers stands for.
func regionOfType(t types.Type) string {
	n := strings.TrimLeft(typeName(t), "*")
	switch n {
	case "instructions.YamlFile":
		return rgFile
	case "overlays.Overlay":
		return rgOvl
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return regionPtr(t.Underlying().(*types.Pointer).Elem())
	}
	return rgShared
}

func regionPtr(t types.Type) string {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return regionOfType(t)
	}
	return rgShared
}

func (a *alias) add(dst aset, src aset) bool {
	ch := false
	for p := range src {
		if !dst[p] {
			dst[p] = true
			ch = true
		}
	}
	if ch {
		a.changed = true
	}
	return ch
}

func (a *alias) get(k akey, v ssa.Value) aset {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return aset{aptr{o: a.regions[rgGlobal], path: x.Name()}: true}
	case *ssa.Function:
		key := "fn|" + fnKey(x)
		o := a.byKey[key]
		if o == nil {
			o = a.newObj()
			o.fn = x
			a.byKey[key] = o
		}
		return aset{aptr{o: o}: true}
	}
	return a.env[k][v]
}

func (a *alias) put(k akey, v ssa.Value, s aset) {
	if len(s) == 0 || !ptrish(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); !ok {
			return
		}
	}
	m := a.env[k]
	if m == nil {
		m = map[ssa.Value]aset{}
		a.env[k] = m
	}
	if m[v] == nil {
		m[v] = aset{}
	}
	a.add(m[v], s)
}

func join(p, f string) string {
	if p == "" {
		return f
	}
	return p + "/" + f
}

// ---- memory

func segMatch(a, b string) bool {
	if a == b {
		return true
	}
	if !strings.HasPrefix(a, "[") || !strings.HasPrefix(b, "[") {
		return false
	}
	if a == "[*]" || b == "[*]" {
		return true
	}
	ag, bg := strings.HasPrefix(a, "[>"), strings.HasPrefix(b, "[>")
	n := func(s string) int { x, _ := strconv.Atoi(strings.Trim(s, "[>]")); return x }
	switch {
	case ag && bg:
		return true
	case ag:
		return n(b) >= n(a)
	case bg:
		return n(a) >= n(b)
	}
	return false
}

func (a *alias) match(p, q string) (string, string) {
	if p == q {
		return "eq", ""
	}
	if r, ok := a.pm[[2]string{p, q}]; ok {
		return r[0], r[1]
	}
	x, y := pathMatch(p, q)
	a.pm[[2]string{p, q}] = [2]string{x, y}
	return x, y
}

// pathMatch: q is a prefix of p ("pre"), equal ("eq") or longer ("post"), rest is what remains.
func pathMatch(p, q string) (string, string) {
	if p == q {
		return "eq", ""
	}
	ps, qs := segs(p), segs(q)
	n := len(ps)
	if len(qs) < n {
		n = len(qs)
	}
	for i := 0; i < n; i++ {
		if !segMatch(ps[i], qs[i]) {
			return "", ""
		}
	}
	switch {
	case len(ps) == len(qs):
		return "eq", ""
	case len(qs) < len(ps):
		return "pre", strings.Join(ps[n:], "/")
	}
	return "post", strings.Join(qs[n:], "/")
}

func segs(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

// load gives what a value of type t stored at p can be.
func (a *alias) load(p aptr, t types.Type, depth int) aset {
	out := aset{}
	a.loadTo(p, t, depth, func(q aptr) { out[q] = true })
	return out
}

func (a *alias) loadTo(p aptr, t types.Type, depth int, emit func(q aptr)) {
	if depth > 8 || !ptrish(t) {
		return
	}
	if isStruct(t) {
		q := p
		q.sv = true
		emit(q)
		return
	}
	if p.o.collapsed() {
		for q := range a.step(p, t) {
			emit(q)
		}
		for q := range p.o.extra {
			emit(q)
		}
		return
	}
	for c, s := range p.o.cells {
		m, _ := a.match(p.path, c)
		if m != "eq" && m != "pre" {
			continue
		}
		for q := range s {
			if q.sv { // a struct found in a region was stored here or above
				a.loadTo(aptr{o: q.o, path: p.path[strings.LastIndex(p.path, "/")+1:]}, t, depth+1, emit)
				continue
			}
			if m == "eq" {
				emit(q)
			}
		}
	}
}

// loadAll puts what is found at every address into v.
func (a *alias) loadAll(k akey, v ssa.Value, addrs aset, t types.Type, at func(p aptr) aptr) {
	if !ptrish(v.Type()) {
		return
	}
	m := a.env[k]
	if m == nil {
		m = map[ssa.Value]aset{}
		a.env[k] = m
	}
	d := m[v]
	if d == nil {
		d = aset{}
		m[v] = d
	}
	done := map[*aobj]bool{}
	for p := range addrs {
		if at != nil {
			p = at(p)
		}
		if p.o.collapsed() && p.o.region != rgFile && !isStruct(t) {
			if done[p.o] {
				continue
			}
			done[p.o] = true
		}
		a.loadTo(p, t, 0, func(q aptr) { a.add1(d, q) })
	}
}

// step: what a pointer found in a region leads to.
func (a *alias) step(p aptr, t types.Type) aset {
	o := p.o
	if o.deep {
		return aset{aptr{o: o}: true}
	}
	n := strings.TrimLeft(strings.TrimLeft(typeName(t), "[]"), "*")
	switch o.region {
	case rgFile:
		last := p.path
		if i := strings.LastIndex(last, "/"); i >= 0 {
			last = last[i+1:]
		}
		if last == "Nodes" || n == "yaml.Node" {
			return a.region(rgDoc)
		}
		if last == "Overlays" || last == "Documents" || n == "overlays.Overlay" || n == "instructions.Document" {
			return a.region(rgOvl)
		}
		return aset{aptr{o: o}: true}
	case rgShared, rgGlobal:
		switch regionOfType(t) {
		case rgFile:
			return a.region(rgFile)
		case rgOvl:
			return a.region(rgOvl)
		}
		return a.region(rgShared)
	}
	return a.region(o.region)
}

func (a *alias) store(k akey, in ssa.Instruction, p aptr, val aset, v ssa.Value) {
	if a.final && v != nil && ptrish(v.Type()) && len(val) > 0 {
		a.stores = append(a.stores, astore{k: k, in: in, val: v, dst: aset{p: true}, src: val})
	}
	a.checkWrite(k, in, p, "written")
	if len(val) == 0 {
		return
	}
	a.putMem(p, val)
}

// putMem adds val to what is stored at p; structs are copied cell by cell.
func (a *alias) putMem(p aptr, val aset) {
	if p.o.collapsed() {
		for q := range val {
			if !q.sv {
				a.add1(p.o.extra, q)
				continue
			}
			if q.o.collapsed() {
				a.add1(p.o.extra, aptr{o: q.o})
				continue
			}
			for c, s := range q.o.cells {
				if m, _ := a.match(c, q.path); m == "eq" || m == "pre" {
					for r := range s {
						r.sv = false
						a.add1(p.o.extra, r)
					}
				}
			}
		}
		return
	}
	cell := func(path string) aset {
		c := p.o.cells[path]
		if c == nil {
			c = aset{}
			p.o.cells[path] = c
		}
		return c
	}
	type kv struct {
		path string
		q    aptr
	}
	var todo []kv
	for q := range val {
		if !q.sv || q.o.collapsed() {
			todo = append(todo, kv{p.path, q})
			continue
		}
		for c, s := range q.o.cells {
			m, rest := a.match(c, q.path)
			if m != "eq" && m != "pre" {
				continue
			}
			np := p.path
			if rest != "" {
				np = join(np, rest)
			}
			if strings.Count(np, "/") > 8 {
				continue
			}
			for r := range s {
				todo = append(todo, kv{np, r})
			}
		}
	}
	for _, t := range todo {
		a.add1(cell(t.path), t.q)
	}
}

func (a *alias) add1(s aset, p aptr) {
	if !s[p] {
		s[p] = true
		a.changed = true
	}
}

func (a *alias) checkWrite(k akey, in ssa.Instruction, p aptr, how string) {
	if !a.final {
		return
	}
	a.nstores++
	switch p.o.region {
	case rgOvl, rgShared, rgGlobal:
		a.viol("write", in, k, fmt.Sprintf("%s is %s while files are processed concurrently", p.o.region, how))
	}
}

// reachSet: objects reachable from a set.
func (a *alias) reachSet(s aset) map[*aobj]bool {
	seen := map[*aobj]bool{}
	var work []*aobj
	push := func(o *aobj) {
		if !seen[o] {
			seen[o] = true
			work = append(work, o)
		}
	}
	for p := range s {
		push(p.o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range o.cells {
			for p := range c {
				push(p.o)
			}
		}
		for p := range o.extra {
			push(p.o)
		}
		if o.region == rgFile {
			push(a.regions[rgDoc])
			push(a.regions[rgOvl])
		}
	}
	return seen
}

// ---- solver

func (a *alias) enter(k akey) {
	if !a.seen[k] {
		a.seen[k] = true
		a.nodes = append(a.nodes, k)
		a.changed = true
	}
}

func (a *alias) solve() {
	for i := 0; i < 200; i++ {
		a.changed = false
		for j := 0; j < len(a.nodes); j++ {
			a.function(a.nodes[j])
		}
		if !a.changed {
			break
		}
	}
	a.final = true
	for j := 0; j < len(a.nodes); j++ {
		a.function(a.nodes[j])
	}
}

func (a *alias) function(k akey) {
	for _, b := range k.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(k, in)
		}
	}
}

func constIndex(v ssa.Value) (int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return int(n), ok
}

func (a *alias) elem(p aptr, idx ssa.Value) aptr {
	if p.o.collapsed() {
		return aptr{o: p.o, path: p.path}
	}
	seg := "[*]"
	if n, ok := constIndex(idx); ok {
		seg = fmt.Sprintf("[%d]", n+p.lo)
	} else if p.lo > 0 {
		seg = fmt.Sprintf("[>%d]", p.lo)
	}
	return aptr{o: p.o, path: join(p.path, seg)}
}

func fieldAt(t types.Type, i int) (string, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (a *alias) instr(k akey, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.put(k, x, aset{aptr{o: a.obj(k, in, "alloc")}: true})
	case *ssa.MakeSlice:
		a.put(k, x, aset{aptr{o: a.obj(k, in, "slice")}: true})
	case *ssa.MakeMap:
		a.put(k, x, aset{aptr{o: a.obj(k, in, "map")}: true})
	case *ssa.MakeChan:
		a.put(k, x, aset{aptr{o: a.obj(k, in, "chan")}: true})
	case *ssa.MakeClosure:
		o := a.obj(k, in, "closure")
		o.fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			c := fmt.Sprintf("fv%d", i)
			if o.cells[c] == nil {
				o.cells[c] = aset{}
			}
			a.add(o.cells[c], a.get(k, b))
		}
		a.put(k, x, aset{aptr{o: o}: true})
	case *ssa.MakeInterface:
		a.put(k, x, a.get(k, x.X))
	case *ssa.ChangeInterface:
		a.put(k, x, a.get(k, x.X))
	case *ssa.ChangeType:
		a.put(k, x, a.get(k, x.X))
	case *ssa.Convert:
		if ptrish(x.X.Type()) {
			a.put(k, x, a.get(k, x.X))
		} else {
			a.put(k, x, aset{aptr{o: a.obj(k, in, "conv")}: true})
		}
	case *ssa.MultiConvert:
		a.put(k, x, a.get(k, x.X))
	case *ssa.SliceToArrayPointer:
		a.put(k, x, a.get(k, x.X))
	case *ssa.TypeAssert:
		a.put(k, x, a.get(k, x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.put(k, x, a.get(k, e))
		}
	case *ssa.Extract:
		t := x.Tuple
		switch c := t.(type) {
		case *ssa.Call:
			a.put(k, x, a.tupleAt(k, c, x.Index))
		case *ssa.Next:
			if x.Index > 0 && !c.IsString {
				r, _ := c.Iter.(*ssa.Range)
				seg := "[k]"
				if x.Index == 2 {
					seg = "[v]"
				}
				if r != nil {
					for p := range a.get(k, r.X) {
						a.put(k, x, a.load(aptr{o: p.o, path: join(p.path, seg)}, x.Type(), 0))
					}
				}
			}
		default:
			a.put(k, x, a.get(k, t))
		}
	case *ssa.FieldAddr:
		f, _ := fieldAt(x.X.Type(), x.Field)
		s := aset{}
		for p := range a.get(k, x.X) {
			if p.o.collapsed() {
				s[aptr{o: p.o, path: f}] = true
				if p.o.region == rgShared || p.o.region == rgGlobal {
					delete(s, aptr{o: p.o, path: f})
					s[aptr{o: p.o}] = true
				}
				continue
			}
			s[aptr{o: p.o, path: join(p.path, f)}] = true
		}
		a.put(k, x, s)
	case *ssa.Field:
		f, ft := fieldAt(x.X.Type(), x.Field)
		s := aset{}
		for p := range a.get(k, x.X) {
			q := aptr{o: p.o, path: join(p.path, f)}
			if p.o.collapsed() {
				q.path = f
			}
			for r := range a.load(q, ft, 0) {
				s[r] = true
			}
		}
		a.put(k, x, s)
	case *ssa.IndexAddr:
		s := aset{}
		for p := range a.get(k, x.X) {
			s[a.elem(p, x.Index)] = true
		}
		a.put(k, x, s)
	case *ssa.Index:
		s := aset{}
		for p := range a.get(k, x.X) {
			for r := range a.load(a.elem(p, x.Index), x.Type(), 0) {
				s[r] = true
			}
		}
		a.put(k, x, s)
	case *ssa.Lookup:
		for p := range a.get(k, x.X) {
			t := x.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			a.put(k, x, a.load(aptr{o: p.o, path: join(p.path, "[v]")}, t, 0))
		}
	case *ssa.Slice:
		s := aset{}
		for p := range a.get(k, x.X) {
			q := p
			if x.Low != nil && !p.o.collapsed() {
				if n, ok := constIndex(x.Low); ok {
					q.lo += n
				}
			}
			s[q] = true
		}
		a.put(k, x, s)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a.loadAll(k, x, a.get(k, x.X), x.Type(), nil)
		case token.ARROW:
			t := x.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			for p := range a.get(k, x.X) {
				a.put(k, x, a.load(aptr{o: p.o, path: join(p.path, "[v]")}, t, 0))
			}
		}
	case *ssa.Store:
		v := a.get(k, x.Val)
		for p := range a.get(k, x.Addr) {
			a.store(k, in, p, v, x.Val)
		}
	case *ssa.MapUpdate:
		for p := range a.get(k, x.Map) {
			a.store(k, in, aptr{o: p.o, path: join(p.path, "[v]")}, a.get(k, x.Value), x.Value)
			if ptrish(x.Key.Type()) {
				a.store(k, in, aptr{o: p.o, path: join(p.path, "[k]")}, a.get(k, x.Key), x.Key)
			}
		}
	case *ssa.Send:
		for p := range a.get(k, x.Chan) {
			a.chanPut(p, a.get(k, x.X))
		}
	case *ssa.Select:
		s := aset{}
		for _, st := range x.States {
			for p := range a.get(k, st.Chan) {
				if st.Dir == types.SendOnly {
					a.chanPut(p, a.get(k, st.Send))
				} else if ch, ok := st.Chan.Type().Underlying().(*types.Chan); ok {
					for r := range a.load(aptr{o: p.o, path: join(p.path, "[v]")}, ch.Elem(), 0) {
						s[r] = true
					}
				}
			}
		}
		a.put(k, x, s)
	case *ssa.Call:
		a.call(k, in, x.Common(), x)
	case *ssa.Go:
		a.call(k, in, x.Common(), nil)
	case *ssa.Defer:
		a.call(k, in, x.Common(), nil)
	case *ssa.Return:
		rs := a.rets[k]
		for i, v := range x.Results {
			for len(rs) <= i {
				rs = append(rs, aset{})
			}
			a.add(rs[i], a.get(k, v))
		}
		a.rets[k] = rs
	}
}

func (a *alias) chanPut(p aptr, v aset) {
	if p.o.collapsed() {
		if p.o.region == "" {
			a.putMem(p, v)
		}
		return
	}
	a.putMem(aptr{o: p.o, path: join(p.path, "[v]")}, v)
}

func (a *alias) tupleAt(k akey, c *ssa.Call, i int) aset {
	out := aset{}
	for _, t := range a.targets(k, c.Common()) {
		ck := a.calleeKey(k, c, t.fn)
		if rs := a.rets[ck]; i < len(rs) {
			for p := range rs[i] {
				out[p] = true
			}
		}
	}
	for p := range a.env[k][c] { // results of external calls
		out[p] = true
	}
	return out
}

func (a *alias) calleeKey(k akey, in ssa.Instruction, fn *ssa.Function) akey {
	ck := okey{in: in, k: k}
	if s, ok := a.byCallee[ck]; ok {
		return akey{fn, s}
	}
	p := strings.Split(k.ctx, ",")
	p = append(p, strconv.Itoa(a.siteID(in)))
	if len(p) > callDepth {
		p = p[len(p)-callDepth:]
	}
	a.byCallee[ck] = strings.Join(p, ",")
	return akey{fn, a.byCallee[ck]}
}

type atarget struct {
	fn   *ssa.Function
	free *aobj
	recv aset
}

func (a *alias) targets(k akey, c *ssa.CallCommon) []atarget {
	var out []atarget
	if c.IsInvoke() {
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range a.P.fns {
			if f.Signature.Recv() != nil && f.Name() == c.Method.Name() && f.Synthetic == "" && iface != nil && types.Implements(f.Signature.Recv().Type(), iface) {
				out = append(out, atarget{fn: f, recv: a.get(k, c.Value)})
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if a.P.inRepo(f) && f.Blocks != nil {
			t := atarget{fn: f}
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for p := range a.get(k, mc) {
					t.free = p.o
				}
			}
			return []atarget{t}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for p := range a.get(k, c.Value) {
		if p.o.fn != nil && a.P.inRepo(p.o.fn) && p.o.fn.Blocks != nil {
			out = append(out, atarget{fn: p.o.fn, free: p.o})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].fn.Pos() < out[j].fn.Pos() })
	return out
}

func (a *alias) bind(ck akey, t atarget, args []aset) {
	a.enter(ck)
	for i, p := range t.fn.Params {
		if i < len(args) {
			a.put(ck, p, args[i])
		}
	}
	if t.free != nil {
		for i, fv := range t.fn.FreeVars {
			a.put(ck, fv, t.free.cells[fmt.Sprintf("fv%d", i)])
		}
	}
}

func (a *alias) call(k akey, in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(k, in, b, c, res)
		return
	}
	ts := a.targets(k, c)
	var args []aset
	for _, x := range c.Args {
		args = append(args, a.get(k, x))
	}
	if a.final {
		a.ncalls++
	}
	for _, t := range ts {
		ck := a.calleeKey(k, in, t.fn)
		as := args
		if c.IsInvoke() {
			as = append([]aset{t.recv}, args...)
		}
		a.bind(ck, t, as)
		if res != nil {
			if rs := a.rets[ck]; len(rs) == 1 {
				a.put(k, res, rs[0])
			}
		}
	}
	if len(ts) > 0 {
		return
	}
	name := "a function value"
	if f := c.StaticCallee(); f != nil {
		name = calleeName(f)
	} else if c.IsInvoke() {
		name = "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name()
		args = append([]aset{a.get(k, c.Value)}, args...)
	}
	a.external(k, in, name, c, args, res)
}

// external calls
func (a *alias) external(k akey, in ssa.Instruction, name string, c *ssa.CallCommon, args []aset, res *ssa.Call) {
	if a.final {
		a.exts[name] = true
	}
	fresh := func(label string) aset {
		o := a.obj(k, in, label)
		o.deep = true
		return aset{aptr{o: o}: true}
	}
	writes := func(i int, v aset) {
		for p := range args[i] {
			a.checkWrite(k, in, p, "written by "+name)
			a.putMem(p, v)
			both := aset{}
			for q := range v {
				q.sv = true
				both[q] = true
			}
			a.putMem(p, both)
		}
	}
	// functions passed to libraries are called with whatever else is passed
	for i, v := range c.Args {
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			off := 0
			if c.IsInvoke() {
				off = 1
			}
			for p := range args[i+off] {
				if p.o.fn != nil && a.P.inRepo(p.o.fn) && p.o.fn.Blocks != nil {
					ck := a.calleeKey(k, in, p.o.fn)
					all := aset{}
					for _, s := range args {
						for q := range s {
							if q.o.fn == nil {
								all[q] = true
							}
						}
					}
					var as []aset
					for range p.o.fn.Params {
						as = append(as, all)
					}
					a.bind(ck, atarget{fn: p.o.fn, free: p.o}, as)
				}
			}
		}
	}
	setRes := func(s aset) {
		if res != nil && len(s) > 0 {
			a.put(k, res, s)
		}
	}
	switch name {
	case "reprint.FromTo":
		// dst becomes a deep copy of src
		writes(1, fresh("deep"))
		if a.final {
			for p := range args[1] {
				a.stores = append(a.stores, astore{k: k, in: in, dst: aset{p: true}, src: fresh("deep")})
			}
		}
		return
	case "reprint.This":
		setRes(fresh("deep"))
		return
	case "yaml.Unmarshal", "json.Unmarshal":
		writes(1, fresh("decoded"))
		return
	case "(*yaml.Decoder).Decode":
		writes(1, fresh("decoded"))
		return
	case "(*yaml.Node).Decode":
		s := fresh("decoded")
		for p := range args[0] { // decoding into a node copies the node itself
			q := p
			q.sv = true
			s[q] = true
		}
		writes(1, s)
		return
	case "(*yaml.Node).Encode", "(*yaml.Node).SetString":
		writes(0, fresh("encoded"))
		return
	case "(*yamlpath.Path).Find":
		setRes(args[1])
		return
	case "yaml.Marshal", "(*bytes.Buffer).Bytes":
		setRes(fresh("bytes"))
		return
	}
	if globalWriter(name) {
		if a.final {
			a.viol("write", in, k, fmt.Sprintf("%s changes settings shared by all workers", name))
		}
		return
	}
	if !readsOnly(name) {
		for i := range args {
			for p := range args[i] {
				if a.final && (p.o.region == rgOvl || p.o.region == rgShared || p.o.region == rgGlobal) {
					a.viol("write", in, k, fmt.Sprintf("%s is passed to %s, which is not known to leave it unchanged", p.o.region, name))
				}
			}
		}
	}
	if readsOnly(name) && pkgOfName(name) != "sync" && res != nil && freshResult(name) {
		setRes(fresh("result"))
		return
	}
	all := fresh("result")
	for _, s := range args {
		for p := range s {
			q := p
			q.sv = false
			all[q] = true
		}
	}
	setRes(all)
}

func globalWriter(n string) bool {
	if pkgOfName(n) == "viper" && !strings.HasPrefix(n, "(") {
		return !(strings.HasPrefix(n, "viper.Get") || strings.HasPrefix(n, "viper.IsSet") || n == "viper.ConfigFileUsed" || n == "viper.AllSettings" || n == "viper.AllKeys" || n == "viper.InConfig" || n == "viper.Sub")
	}
	switch n {
	case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "logging.SetBackend", "logging.SetLevel", "logging.SetFormatter", "flag.Set":
		return true
	}
	return false
}

// readsOnly: library functions that leave what is passed to them unchanged.
func readsOnly(n string) bool {
	switch pkgOfName(n) {
	case "fmt", "logging", "strings", "strconv", "errors", "cmp", "cmpopts", "yamlpath", "regexp", "sync", "errgroup", "context", "unicode", "utf8",
		"path", "filepath", "time", "sed", "viper", "os", "atomic", "math", "bytes", "io", "bufio":
		return n != "fmt.Sscanf" && n != "fmt.Sscan"
	}
	switch n {
	case "(*yaml.Node).IsZero", "(yaml.Node).IsZero", "(*yaml.Node).LongTag", "(*yaml.Node).ShortTag", "(*yaml.Encoder).Encode", "reflect.DeepEqual",
		"invoke:error.Error", "sort.SearchInts", "sort.SearchStrings", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "sort.IsSorted", "sort.SliceIsSorted", "yaml.NewEncoder":
		return true
	}
	return false
}

func freshResult(n string) bool {
	switch pkgOfName(n) {
	case "fmt", "logging", "strings", "strconv", "regexp", "sed", "viper", "os", "path", "filepath", "time", "yamlpath", "errors":
		return true
	}
	return false
}

func (a *alias) builtin(k akey, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, res *ssa.Call) {
	switch b.Name() {
	case "append":
		if res == nil {
			return
		}
		elems := aset{}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if !ptrish(el) {
			no := a.obj(k, in, "append")
			out := aset{aptr{o: no}: true}
			for p := range a.get(k, c.Args[0]) {
				out[p] = true
				if p.o.collapsed() && !emptySlice(c.Args[0]) && !exactSlice(c.Args[0]) {
					a.checkWrite(k, in, p, "appended to")
				}
			}
			a.put(k, res, out)
			return
		}
		dd := map[*aobj]bool{}
		for p := range a.get(k, c.Args[1]) {
			seg := "[*]"
			if p.lo > 0 {
				seg = fmt.Sprintf("[>%d]", p.lo)
			}
			q := aptr{o: p.o, path: join(p.path, seg)}
			if p.o.collapsed() {
				q.path = p.path
				if dd[p.o] && p.o.region != rgFile {
					continue
				}
				dd[p.o] = true
			}
			a.loadTo(q, el, 0, func(r aptr) { elems[r] = true })
		}
		exact := exactSlice(c.Args[0])
		no := a.obj(k, in, "append")
		a.store(k, in, aptr{o: no, path: "[*]"}, elems, nil)
		out := aset{aptr{o: no}: true}
		for p := range a.get(k, c.Args[0]) {
			out[p] = true
			// the new array starts with the old elements
			q := aptr{o: p.o, path: join(p.path, "[*]")}
			if p.o.collapsed() {
				q.path = p.path
			}
			a.store(k, in, aptr{o: no, path: "[*]"}, a.load(q, el, 0), nil)
			if exact || emptySlice(c.Args[0]) {
				continue
			}
			if p.o.collapsed() {
				a.checkWrite(k, in, p, "appended to")
				a.putMem(p, elems)
			} else {
				a.store(k, in, aptr{o: p.o, path: join(p.path, "[*]")}, elems, nil)
			}
		}
		if a.final && ptrish(el) {
			a.stores = append(a.stores, astore{k: k, in: in, val: c.Args[1], dst: out, src: elems, el: true})
		}
		a.put(k, res, out)
	case "copy":
		elems := aset{}
		sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for p := range a.get(k, c.Args[1]) {
			q := aptr{o: p.o, path: join(p.path, "[*]")}
			if p.o.collapsed() {
				q.path = p.path
			}
			for r := range a.load(q, sl.Elem(), 0) {
				elems[r] = true
			}
		}
		for p := range a.get(k, c.Args[0]) {
			q := aptr{o: p.o, path: join(p.path, "[*]")}
			if p.o.collapsed() {
				q.path = p.path
			}
			a.store(k, in, q, elems, nil)
		}
		if a.final && ptrish(sl.Elem()) {
			a.stores = append(a.stores, astore{k: k, in: in, val: c.Args[1], dst: a.get(k, c.Args[0]), src: elems, el: true})
		}
	case "delete", "clear":
		for p := range a.get(k, c.Args[0]) {
			a.checkWrite(k, in, p, "changed")
		}
	case "min", "max", "ssa:wrapnilchk":
		if res != nil {
			a.put(k, res, a.get(k, c.Args[0]))
		}
	}
}

func emptySlice(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// exactSlice: a slice expression without spare capacity.
func exactSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High == s.Max
}
