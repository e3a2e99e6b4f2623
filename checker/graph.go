package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- call graph of the repository
//
// Calls whose callee is known are edges; a function whose value is taken (closures, method values, function
// arguments, goroutines) counts as called by the function taking the value; calls through interfaces reach every
// repository method of that name whose receiver implements the interface.

type site struct {
	caller *ssa.Function
	instr  ssa.Instruction
	callee *ssa.Function // repository function, or nil
	ext    string        // name of the external callee
	taken  bool          // only the value is taken
}

type graph struct {
	out map[*ssa.Function][]site
	in  map[*ssa.Function][]site
}

func (P *Program) graph() *graph {
	if P.cg != nil {
		return P.cg
	}
	g := &graph{out: map[*ssa.Function][]site{}, in: map[*ssa.Function][]site{}}
	P.cg = g
	byMethod := map[string][]*ssa.Function{}
	for _, f := range P.fns {
		if f.Signature.Recv() != nil {
			byMethod[f.Name()] = append(byMethod[f.Name()], f)
		}
	}
	add := func(s site) {
		g.out[s.caller] = append(g.out[s.caller], s)
		if s.callee != nil {
			g.in[s.callee] = append(g.in[s.callee], s)
		}
	}
	for _, f := range P.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var direct ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						iface, _ := cc.Value.Type().Underlying().(*types.Interface)
						add(site{caller: f, instr: in, ext: "invoke:" + types.TypeString(cc.Value.Type(), short) + "." + cc.Method.Name()})
						for _, m := range byMethod[cc.Method.Name()] {
							if iface != nil && types.Implements(m.Signature.Recv().Type(), iface) {
								add(site{caller: f, instr: in, callee: m})
							}
						}
					} else if fn := cc.StaticCallee(); fn != nil {
						direct = cc.Value
						if P.inRepo(fn) && fn.Blocks != nil {
							add(site{caller: f, instr: in, callee: fn})
						} else {
							add(site{caller: f, instr: in, ext: calleeName(fn)})
						}
					}
				}
				var ops [32]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil || *o == direct {
						continue
					}
					if fn, ok := (*o).(*ssa.Function); ok {
						if P.inRepo(fn) && fn.Blocks != nil {
							add(site{caller: f, instr: in, callee: fn, taken: true})
						} else {
							add(site{caller: f, instr: in, ext: calleeName(fn), taken: true})
						}
					}
				}
			}
		}
	}
	// synthetic bound/thunk wrappers stand for the method they wrap: they are part of P.fns and have their own edges
	return g
}

// PkgFuncs lists the source functions of a package (by short name).
func (P *Program) PkgFuncs(pkg string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.fns {
		p := fnPkg(f)
		if p != nil && p.Path()[strings.LastIndex(p.Path(), "/")+1:] == pkg && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}

func (P *Program) byName(name string) *ssa.Function {
	if P.names == nil {
		P.names = map[string]*ssa.Function{}
		for _, f := range P.fns {
			if f.Synthetic == "" && f.Parent() == nil {
				P.names[calleeName(f)] = f
			}
		}
	}
	return P.names[name]
}

// reach gives the repository functions reachable from f.
func (P *Program) reach(fs ...*ssa.Function) map[*ssa.Function]bool {
	g := P.graph()
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), fs...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] {
			continue
		}
		seen[f] = true
		for _, s := range g.out[f] {
			if s.callee != nil && !seen[s.callee] {
				work = append(work, s.callee)
			}
		}
	}
	return seen
}

func (P *Program) reaches(f, g *ssa.Function) bool { return P.reach(f)[g] }

// recursive tells whether f can call itself.
func (P *Program) recursive(f *ssa.Function) bool {
	for _, s := range P.graph().out[f] {
		if s.callee != nil && (s.callee == f || P.reaches(s.callee, f)) {
			return true
		}
	}
	return false
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnKey(out[i]) < fnKey(out[j]) })
	return out
}

// chain gives a call path from one of the roots to f, for reports.
func (P *Program) chain(roots []*ssa.Function, f *ssa.Function) string {
	prev := map[*ssa.Function]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	for _, r := range roots {
		seen[r] = true
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == f {
			var s []string
			for x != nil {
				s = append([]string{fnLabel(x)}, s...)
				x = prev[x]
			}
			return strings.Join(s, " -> ")
		}
		for _, e := range P.graph().out[x] {
			if e.callee != nil && !seen[e.callee] {
				seen[e.callee] = true
				prev[e.callee] = x
				work = append(work, e.callee)
			}
		}
	}
	return fnLabel(f)
}

// pkgShort gives the name of the package a function belongs to.
func pkgShort(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Name()
}

// typ looks up a named type.
func (P *Program) typ(pkg, name string) types.Type {
	if p := P.ssa[pkg]; p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return types.Typ[types.Invalid]
}
