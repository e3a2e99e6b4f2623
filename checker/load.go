package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vmware-tanzu-labs/yaml-overlay-tool"

type Program struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	ssa     map[string]*ssa.Package // by short name (last path element)
	fset    *token.FileSet
	fns     []*ssa.Function // every source function of the repository, closures included
	dir     string
	live    map[*ssa.Function]*liveInfo
	lps     map[*ssa.Function]*loopInfo
	pure    map[*ssa.Function]tri
	inspect map[*ssa.Function]bool
	glob    map[*ssa.Global]*globInfo

	emptyFind string
	mc        *mergeCtx
	cg        *graph
	names     map[string]*ssa.Function
	outFns    map[*ssa.Function]bool
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: ps, ssa: map[string]*ssa.Package{}, fset: prog.Fset, dir: dir,
		live: map[*ssa.Function]*liveInfo{}, lps: map[*ssa.Function]*loopInfo{}, pure: map[*ssa.Function]tri{}, glob: map[*ssa.Global]*globInfo{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		pp := ps[i].PkgPath
		P.ssa[pp[strings.LastIndex(pp, "/")+1:]] = sp
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if P.inRepo(f) && f.Blocks != nil {
			P.fns = append(P.fns, f)
		}
	}
	sort.Slice(P.fns, func(i, j int) bool { return fnKey(P.fns[i]) < fnKey(P.fns[j]) })
	return P, nil
}

func fnKey(f *ssa.Function) string { return fmt.Sprintf("%s|%d", f.String(), f.Pos()) }

func fnPkg(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return nil
}

func (P *Program) inRepo(f *ssa.Function) bool {
	p := fnPkg(f)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	if r, err := filepath.Rel(P.dir, q.Filename); err == nil {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return q.String()
}

func (P *Program) ipos(i ssa.Instruction) string {
	if i == nil {
		return "-"
	}
	if i.Pos().IsValid() {
		return P.pos(i.Pos())
	}
	// nearest instruction with a position
	b := i.Block()
	idx := 0
	for k, x := range b.Instrs {
		if x == i {
			idx = k
		}
	}
	for k := idx; k >= 0; k-- {
		if b.Instrs[k].Pos().IsValid() {
			return P.pos(b.Instrs[k].Pos())
		}
	}
	for k := idx; k < len(b.Instrs); k++ {
		if b.Instrs[k].Pos().IsValid() {
			return P.pos(b.Instrs[k].Pos())
		}
	}
	return P.pos(i.Parent().Pos())
}

// Func finds a package level function or method: Func("actions","MergeNode"), Func("overlays","(*Overlay).Apply").
func (P *Program) Func(pkg, name string) *ssa.Function {
	sp := P.ssa[pkg]
	if sp == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	i := strings.Index(name, ").")
	tn, mn := name[1:i], name[i+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	o := sp.Pkg.Scope().Lookup(tn)
	if o == nil {
		return nil
	}
	_ = ptr
	if n, ok := o.Type().(*types.Named); ok {
		for k := 0; k < n.NumMethods(); k++ {
			if n.Method(k).Name() == mn {
				return P.prog.FuncValue(n.Method(k))
			}
		}
	}
	return nil
}

// ---- loops

type Loop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	depth  int
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
	loops    []*Loop
}

func (P *Program) loops(f *ssa.Function) *loopInfo {
	if l, ok := P.lps[f]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &Loop{fn: f, header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.loops = append(li.loops, l)
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	P.lps[f] = li
	return li
}

// ---- liveness

type liveInfo struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (P *Program) liveness(f *ssa.Function) *liveInfo {
	if l, ok := P.live[f]; ok {
		return l
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		li.in[b] = map[ssa.Value]bool{}
	}
	var rands [32]*ssa.Value
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			live := P.liveOut(li, b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, o := range in.Operands(rands[:0]) {
					if *o != nil && trackable(*o) {
						live[*o] = true
					}
				}
			}
			for v := range live {
				if !li.in[b][v] {
					li.in[b][v] = true
					ch = true
				}
			}
		}
	}
	P.live[f] = li
	return li
}

func (P *Program) liveOut(li *liveInfo, b *ssa.BasicBlock) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range li.in[s] {
			live[v] = true
		}
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if pi >= 0 && trackable(ph.Edges[pi]) {
				live[ph.Edges[pi]] = true
			}
		}
	}
	return live
}
